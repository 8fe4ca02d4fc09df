#![no_main]
//! C21: malformed databases never panic the reader.
use binrw::{io::Cursor, BinRead, BinWrite};
use fallible_iterator::FallibleIterator;
use harness::db::*;
use harness::img::{well, CODE};
use harness::*;
use rekordcrate::pdb::{ext::ExtPageType, io::Database, *};
use rekordcrate::util::TableIndex;
use PlainPageType as P;

const PLAIN: [P; 15] = [P::Tracks, P::Genres, P::Artists, P::Albums, P::Labels, P::Keys, P::Colors, P::PlaylistTree, P::PlaylistEntries, P::HistoryPlaylists, P::HistoryEntries, P::Artwork, P::Columns, P::Menu, P::History];
fn kind(k: usize) -> PageType {
    match k { 15 => PageType::Ext(ExtPageType::Tag), 16 => PageType::Ext(ExtPageType::TrackTag), 17 => PageType::Unknown(77), _ => PageType::Plain(PLAIN[k]) }
}
fn db_type(k: usize) -> DatabaseType { if k == 15 || k == 16 { DatabaseType::Ext } else { DatabaseType::Plain } }
fn row(b: &[u8], k: usize) {
    match Row::read_le_args(&mut Cursor::new(b), (kind(k),)) {
        Ok(r) => { reach("opt:read"); let _ = wr(&r); }
        Err(_) => reach("opt:rejected"),
    }
}
fn page(b: &[u8], size: u32, t: DatabaseType) {
    let r = Page::read_le_args(&mut Cursor::new(b), (size, t));
    match r {
        Ok(p) => {
            reach("opt:read");
            if size > 256 { return; }
            let mut w = Cursor::new(Vec::new());
            let _ = p.write_le_args(&mut w, (size,));
        }
        Err(_) => reach("opt:rejected"),
    }
}
fn walk<T: RowVariant>(db: &mut Database<Cursor<Vec<u8>>>) {
    let Ok(it) = db.iter_rows::<T>() else { reach("opt:no table"); return };
    let mut it = it;
    let mut n = 0;
    loop {
        match it.next() {
            Ok(Some(_)) => n += 1,
            Ok(None) => { reach("opt:end"); break }
            Err(_) => { reach("opt:error"); break }
        }
        check(n < 100, "iteration ends");
        if n >= 100 { return; }
    }
}
fn open(b: Vec<u8>, t: DatabaseType) {
    let n = b.len();
    let Ok(mut db) = Database::open_non_persistent(Cursor::new(b), t) else { reach("opt:rejected"); return };
    reach("opt:opened");
    let tables = db.get_header().tables.len();
    check(tables <= n / 16, "no more tables than the file has");
    walk::<PlaylistEntry>(&mut db);
    let mut i = 0;
    while i <= tables && i < 3 {
        if let Ok(mut it) = db.iter_pages_for_table(TableIndex::from(i)) {
            let mut k = 0;
            while let Ok(Some(_)) = it.next() { k += 1; check(k < 100, "iteration ends (pages)"); if k >= 100 { return; } }
        } else { check(i == tables, "every listed table can be iterated"); }
        i += 1;
    }
    if let Ok(i) = PageIndex::try_from(choose(8, "index") as u32) { let _ = db.load_page(i); }
}
/// a small database: tables of entries and one more, an index page and a data page of two rows
fn sample() -> Db {
    let mut d = Db::new(0x60, 4, 4, 2);
    d.table(0, TYPE, 1, 2);
    d.table(1, 77, 3, 3);
    d.index(1, TYPE, 2, 2);
    d.data(2, TYPE, 3, 2, 3);
    d.data(3, 77, 4, 2, 3);
    d
}
harnesses! {
    // any bytes as a header
    fn h_header() {
        let b = vec(param(0) as usize, "bytes");
        let t = if param(1) == 1 { DatabaseType::Ext } else { DatabaseType::Plain };
        match Header::read_le_args(&mut Cursor::new(&b), (t,)) {
            Ok(h) => { check(h.tables.len() == h.num_tables as usize, "as many tables as announced"); check(28 + 16 * h.tables.len() <= b.len(), "the tables are in the file"); reach("opt:read"); }
            Err(_) => reach("opt:rejected"),
        }
    }
    // params: bytes, number of them arbitrary (the rest zero), page size (0: any)
    fn h_page() {
        let n = param(0) as usize;
        let b = vec(n, "bytes");
        let size = if param(1) == 0 { u32v("size") } else { param(1) as u32 };
        page(&b, size, DatabaseType::Plain);
    }
    // an empty file prefix: headers of a page of any type with any counts, of any page size
    fn h_counts() {
        let mut b = vec![0u8; param(0) as usize];
        let size = if param(1) == 0 { u32v("size") } else { param(1) as u32 };
        b[4] = 1;
        b[8] = 5;
        fill(&mut b[24..32], "counts");
        page(&b, size, DatabaseType::Plain);
    }
    // params: row kind, bytes
    fn h_row() {
        let b = vec(param(1) as usize, "bytes");
        row(&b, param(0) as usize);
    }
    // the rows damaged below are well-formed; params: kind
    fn h_well() {
        let k = param(0) as usize;
        let b = well(k);
        check(Row::read_le_args(&mut Cursor::new(&b), (kind(k),)).is_ok(), "a well-formed row is read");
        reach("well");
    }
    // a well-formed row with any bytes in a window, cut anywhere; params: kind, place, bytes
    fn h_row_damage() {
        let (k, p, n) = (param(0) as usize, param(1) as usize, param(2) as usize);
        let mut b = well(k);
        if p >= b.len() { return; }
        let e = b.len().min(p + n);
        fill(&mut b[p..e], "edit");
        let cut = choose(4, "cut") as usize;
        b.truncate(b.len().saturating_sub(cut * cut));
        row(&b, k);
    }
    // a page of rows of each kind with any bytes in a window; params: kind, place, bytes
    fn h_page_damage() {
        let (k, p, n) = (param(0) as usize, param(1) as usize, param(2) as usize);
        let r = well(k);
        let size = (40 + 2 * r.len() + 44).div_ceil(16) * 16;
        let mut b = vec![0u8; size];
        b[4] = 1;
        b[8] = CODE.get(k).copied().unwrap_or(77) as u8;
        b[12] = 2;
        b[24] = 2;
        b[25] = 2 << 5;
        b[27] = 0x24;
        b[30] = (2 * r.len()) as u8;
        b[40..40 + r.len()].copy_from_slice(&r);
        b[40 + r.len()..40 + 2 * r.len()].copy_from_slice(&r);
        b[size - 4] = 3;
        b[size - 8] = r.len() as u8;
        // places are counted from the start up to the heap, then backwards from the end
        let at = if p < 40 { p } else { size - (p - 36) };
        let e = size.min(at + n);
        fill(&mut b[at..e], "edit");
        page(&b, size as u32, db_type(k));
    }
    // an index page of any entry count and size
    fn h_index() {
        let mut d = Db::new(0x60, 2, 2, 1);
        d.index(1, TYPE, 2, 2);
        let mut b = d.b[0x60..].to_vec();
        fill(&mut b[56..58], "count");
        b.truncate(b.len() - choose(6, "cut") as usize);
        let size = if param(0) == 0 { u32v("size") } else { param(0) as u32 };
        page(&b, size, DatabaseType::Plain);
    }
    // any bytes as a file
    fn h_file() {
        let mut b = vec(param(0) as usize, "bytes");
        let n = b.len() as u32;
        if n > 8 {
            let sizes = [0, 1, n / 2, n - 1, n, 4096, 0xffff_fff0];
            let k = fork(choose(sizes.len() as u64, "page_size")) as usize;
            b[4..8].copy_from_slice(&sizes[k].to_le_bytes());
        }
        open(b, if param(1) == 1 { DatabaseType::Ext } else { DatabaseType::Plain });
    }
    // any page size; any page is asked for
    fn h_load() {
        let mut d = sample();
        if param(0) == 1 { fill(&mut d.b[4..8], "page_size"); }
        let Ok(mut db) = Database::open_non_persistent(Cursor::new(d.b), DatabaseType::Plain) else { reach("opt:rejected"); return };
        let i = if param(1) == 1 { u32v("index") } else { 3 };
        match PageIndex::try_from(i) {
            Ok(i) => if let Ok(p) = db.load_page(i) { check(p.header.page_index == i || param(0) == 1, "the page asked for"); reach("loaded"); } else { reach("opt:rejected"); },
            Err(_) => reach("opt:rejected"),
        }
    }
    // a small database with any bytes in a window; params: place, bytes
    fn h_damage() {
        let (p, n) = (param(0) as usize, param(1) as usize);
        let mut d = sample();
        let e = d.b.len().min(p + n);
        fill(&mut d.b[p..e], "edit");
        open(d.b, DatabaseType::Plain);
    }
    // two windows; params: places
    fn h_damage2() {
        let mut d = sample();
        for i in 0..2 { let p = param(i) as usize; fill(&mut d.b[p..p + 2], "edit"); }
        open(d.b, DatabaseType::Plain);
    }
    // a small database cut anywhere
    fn h_cut() {
        let mut d = sample();
        let n = choose(d.b.len() as u64 / 4, "cut") as usize;
        d.b.truncate(4 * n);
        open(d.b, DatabaseType::Plain);
    }
}
