#![no_main]
//! C37: whatever is done with a database, it behaves as a list of rows with a copy on disk.
use binrw::io::Cursor;
use fallible_iterator::FallibleIterator;
use harness::db::*;
use harness::*;
use rekordcrate::pdb::{io::Database, *};

type Entry = [u8; ROW];
/// the rows of both data pages
type Rows = [Vec<Entry>; 2];
/// the file that holds these rows; numbers of the header and of the index page
fn image(ps: usize, rows: &Rows, heads: [u32; 2]) -> Vec<u8> {
    let mut d = Db::new(ps, 5, 5, 2);
    d.put32(20, heads[0]);
    d.table(0, TYPE, 1, 3);
    d.table(1, 0x55, 9, 9);
    d.index(1, TYPE, 2, 2);
    d.put32(ps + 16, heads[1]);
    for p in 0..2 {
        let n = rows[p].len();
        d.data(2 + p, TYPE, if p == 0 { 3 } else { 9 }, n, ((1u32 << n) - 1) as u16);
        for (r, x) in rows[p].iter().enumerate() { let at = d.row(2 + p, r); d.b[at..at + ROW].copy_from_slice(x); }
    }
    d.b
}
fn ix(i: u32) -> PageIndex { match PageIndex::try_from(i) { Ok(i) => i, Err(_) => { check(false, "page index"); loop {} } } }
fn number(v: &[u8]) -> u32 { u32::from_le_bytes([v[0], v[1], v[2], v[3]]) }
fn is(r: &PlaylistEntry, x: &Entry) -> bool { r.entry_index == number(x) && r.track_id.0 == number(&x[4..]) && r.playlist_id.0 == number(&x[8..]) }
type Opened<'a> = Database<Cursor<&'a mut Vec<u8>>>;
/// changes the k-th row of a page, two numbers of it
fn edit(db: &mut Opened, p: usize, k: usize, live: &mut Rows) {
    let (x, y) = (u32v("new"), u32v("new"));
    match db.load_page(ix(2 + p as u32)) {
        Ok(page) => match page.content.as_data_mut().and_then(|c| c.rows.values_mut().nth(k)).and_then(|r| r.as_variant_mut::<PlaylistEntry>()) {
            Some(r) => { r.entry_index = x; r.playlist_id = PlaylistTreeNodeId(y); }
            None => check(false, "the row is there"),
        },
        Err(_) => check(false, "a page that is there is loaded"),
    }
    live[p][k][..4].copy_from_slice(&x.to_le_bytes());
    live[p][k][8..].copy_from_slice(&y.to_le_bytes());
}
fn insert(db: &mut Opened, p: usize, room: usize, live: &mut Rows) {
    let x = bytes::<ROW>("row");
    let row = match rda::<Row, _>(&x, (PageType::Plain(PlainPageType::PlaylistEntries),)) { Ok((r, _)) => r, Err(_) => { check(false, "row"); return } };
    match db.load_page(ix(2 + p as u32)) {
        Ok(page) => match page.allocate_row(ROW as u16) {
            Some(place) => { place(row); check(live[p].len() < room, "a full page takes no row"); live[p].push(x); reach("opt:inserted"); }
            None => { check(live[p].len() == room, "a page with room takes a row"); reach("opt:full"); }
        },
        Err(_) => check(false, "a page that is there is loaded (insert)"),
    }
}
/// every row of the table, in order; changes the e-th one on the way
fn visit(db: &mut Opened, live: &mut Rows, e: usize) {
    let x = u32v("visited");
    let n = live[0].len();
    match db.iter_rows::<PlaylistEntry>() {
        Ok(mut it) => {
            let mut k = 0;
            while let Ok(Some(r)) = it.next() {
                if k >= n + live[1].len() { check(false, "no more rows than there are"); return; }
                let m = if k < n { &mut live[0][k] } else { &mut live[1][k - n] };
                check(is(r, m), "every row is the one last stored");
                if k == e { r.track_id = TrackId(x); m[4..8].copy_from_slice(&x.to_le_bytes()); }
                k += 1;
            }
            check(k == n + live[1].len(), "every row is there");
        }
        Err(_) => check(false, "the table is there"),
    }
}
harnesses! {
    // params: page size, rows that fit a page, first operation, number of operations
    fn h_history() {
        let (ps, room, first, n) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize);
        let mut live: Rows = [vec![bytes("old"), bytes("old")], vec![bytes("old")]];
        let mut heads = [u32v("sequence"), u32v("unknown")];
        let mut file = image(ps, &live, heads);
        let (mut stored, mut kept) = (live.clone(), heads);
        let mut done = 0;
        while done < n {
            {
                let mut db: Opened = match Database::open(Cursor::new(&mut file), DatabaseType::Plain) { Ok(d) => d, Err(_) => { check(false, "the file can be opened"); return } };
                while done < n {
                    let o = if done == 0 { first } else { choose(12, "operation") as usize };
                    done += 1;
                    match o {
                        0 => edit(&mut db, 0, 0, &mut live),
                        1 => { let k = live[0].len() - 1; edit(&mut db, 0, k, &mut live) }
                        2 => { let k = live[1].len() - 1; edit(&mut db, 1, k, &mut live) }
                        3 => insert(&mut db, 0, room, &mut live),
                        4 => insert(&mut db, 1, room, &mut live),
                        5 => { check(db.flush().is_ok(), "a database is flushed"); stored = live.clone(); kept = heads; }
                        6 => { check(db.close().is_ok(), "a database is closed"); stored = live.clone(); kept = heads; break; }
                        7 => { drop(db); break; }
                        8 => visit(&mut db, &mut live, usize::MAX),
                        9 => { let e = live[0].len(); visit(&mut db, &mut live, e) }
                        10 => {
                            check(db.get_header().sequence == heads[0], "the header is the one last stored");
                            heads = [u32v("sequence"), u32v("unknown")];
                            db.get_header_mut().sequence = heads[0];
                            match db.load_page(ix(1)) { Ok(p) => p.header.unknown1 = heads[1], Err(_) => check(false, "the index page is loaded") }
                        }
                        _ => { check(db.load_page(ix(7)).is_err(), "a page that is not there is an error"); check(db.iter_rows::<Track>().is_err(), "a table that is not there is an error"); }
                    }
                }
            }
            let want = image(ps, &stored, kept);
            check(file.len() == want.len() && same(&file, &want), "the file holds what was last flushed");
            if file.len() != want.len() { return; }
            live = stored.clone();
            heads = kept;
        }
        let mut db: Opened = match Database::open(Cursor::new(&mut file), DatabaseType::Plain) { Ok(d) => d, Err(_) => { check(false, "the file can be opened again"); return } };
        visit(&mut db, &mut live, usize::MAX);
        reach("history");
    }
}
