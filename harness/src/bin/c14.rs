#![no_main]
//! C14: the database header and the lookup of tables.
use harness::*;
use rekordcrate::pdb::{ext::ExtPageType, *};
use rekordcrate::util::TableIndex;

const PLAIN: [(u32, PlainPageType); 15] = [
    (0, PlainPageType::Tracks), (1, PlainPageType::Genres), (2, PlainPageType::Artists), (3, PlainPageType::Albums), (4, PlainPageType::Labels),
    (5, PlainPageType::Keys), (6, PlainPageType::Colors), (7, PlainPageType::PlaylistTree), (8, PlainPageType::PlaylistEntries),
    (11, PlainPageType::HistoryPlaylists), (12, PlainPageType::HistoryEntries), (13, PlainPageType::Artwork), (16, PlainPageType::Columns),
    (17, PlainPageType::Menu), (19, PlainPageType::History),
];
fn kind(code: u32, ext: bool) -> PageType {
    if ext {
        match code { 3 => PageType::Ext(ExtPageType::Tag), 4 => PageType::Ext(ExtPageType::TrackTag), c => PageType::Unknown(c) }
    } else {
        for (c, t) in PLAIN { if c == code { return PageType::Plain(t); } }
        PageType::Unknown(code)
    }
}
fn db(ext: bool) -> DatabaseType { if ext { DatabaseType::Ext } else { DatabaseType::Plain } }
fn get(b: &[u8], at: usize) -> u32 { u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) }

harnesses! {
    // every page type code; param: extended
    fn h_type() {
        let ext = param(0) == 1;
        let b = bytes::<4>("type");
        let code = u32::from_le_bytes(b);
        match rda::<PageType, _>(&b, (db(ext),)) {
            Ok((t, n)) => {
                check(n == 4, "a page type takes four bytes");
                check(t == kind(code, ext), "every page type code has its meaning, others keep their number");
                check(match wr(&t) { Ok(w) => same(&w, &b), Err(_) => false }, "a page type is written as its code");
                match t { PageType::Unknown(c) => { check(c == code, "an unknown code keeps its number"); reach("unknown"); } PageType::Plain(_) => { check(!ext, "plain types belong to plain databases"); reach("opt:plain"); } PageType::Ext(_) => { check(ext, "extended types belong to extended databases"); reach("opt:ext"); } }
            }
            Err(_) => check(false, "every page type code is read"),
        }
    }
    // every header field; params: tables, extended, code table types (1: any code)
    fn h_header() {
        let (n, ext, any) = (param(0) as usize, param(1) == 1, param(2) == 1);
        let mut b = vec(28 + 16 * n, "header");
        for i in 0..4 { b[i] = 0; b[24 + i] = 0; }
        b[8..12].copy_from_slice(&(n as u32).to_le_bytes());
        if !any { for i in 0..n { let c = [8, 3, 0x1234_5678][i % 3] as u32; b[28 + 16 * i..32 + 16 * i].copy_from_slice(&c.to_le_bytes()); } }
        let (h, used) = match rda::<Header, _>(&b, (db(ext),)) { Ok(h) => h, Err(_) => { check(false, "every header is read"); return } };
        check(used == b.len(), "a header is read to its end");
        check(h.page_size == get(&b, 4) && h.num_tables == n as u32 && h.unknown == get(&b, 16) && h.sequence == get(&b, 20), "header fields come from their bytes");
        check(h.next_unused_page.offset(1) == get(&b, 12) as u64, "the next unused page comes from its bytes");
        check(h.tables.len() == n, "as many tables as declared");
        for i in 0..n {
            let t = &h.tables[i];
            let at = 28 + 16 * i;
            check(t.page_type == kind(get(&b, at), ext), "table types come from their bytes");
            check(t.first_page.offset(1) == get(&b, at + 8) as u64 && t.last_page.offset(1) == get(&b, at + 12) as u64, "table pages come from their bytes");
        }
        let w = match wra(&h, (db(ext),)) { Ok(w) => w, Err(_) => { check(false, "a header is written"); return } };
        check(same(&w, &b), "a written header has the same bytes");
        match rda::<Header, _>(&w, (db(ext),)) { Ok((g, _)) => check(g == h, "a written header is read again"), Err(_) => check(false, "written header read") }
        reach("header");
    }
    // marker fields; param: byte
    fn h_marker() {
        let i = param(0) as usize;
        let mut b = vec(44, "header");
        for j in 0..4 { b[j] = 0; b[24 + j] = 0; b[8 + j] = 0; b[28 + j] = 0; }
        let at = if i < 4 { i } else { 20 + i };
        b[at] = u8v("marker");
        check(rda::<Header, _>(&b, (DatabaseType::Plain,)).is_ok() == (b[at] == 0), "a header with non-zero markers is rejected");
        reach("marker");
    }
    // headers cut short or declaring more tables than there are; param: bytes
    fn h_short() {
        let n = param(0) as usize;
        let mut b = vec(n, "header");
        for i in 0..n { if i < 4 || (i >= 24 && i < 28) { b[i] = 0; } }
        if n >= 44 { b[28] = 1; b[29] = 0; b[30] = 0; b[31] = 0; }
        let tables = if n >= 12 { get(&b, 8) } else { 0 };
        let room = if n >= 28 { (n - 28) / 16 } else { 0 };
        match rda::<Header, _>(&b, (DatabaseType::Plain,)) {
            Ok((h, _)) => { check(n >= 28 && tables as usize <= room && h.tables.len() == tables as usize, "a header is only read when all its tables are there"); reach("opt:read"); }
            Err(_) => { check(n < 28 || tables as usize > room, "a complete header is read"); reach("opt:short"); }
        }
    }
    // lookup; params: tables, extended; arbitrary types
    fn h_find() {
        let (n, ext) = (param(0) as usize, param(1) == 1);
        let mut b = std::vec![0u8; 28 + 16 * n];
        b[8] = n as u8;
        let codes: [u32; 4] = if ext { [3, 4, 0, 77] } else { [0, 8, 19, 77] };
        let mut types = Vec::new();
        for i in 0..n {
            let c = codes[choose(4, "type") as usize];
            types.push(c);
            b[28 + 16 * i..32 + 16 * i].copy_from_slice(&c.to_le_bytes());
            b[36 + 16 * i] = i as u8 + 1;
        }
        let wanted = [codes[0], codes[1], codes[2], codes[3], 13][choose(5, "wanted") as usize];
        let (mut h, _) = match rda::<Header, _>(&b, (db(ext),)) { Ok(h) => h, Err(_) => { check(false, "header read"); return } };
        let want = types.iter().position(|t| *t == wanted);
        let t = kind(wanted, ext);
        match h.find_table(t) {
            Some((i, table)) => {
                check(want.map(TableIndex::from) == Some(i), "the first table of the type is found");
                check(table.page_type == t && table.first_page.offset(1) == want.unwrap_or(99) as u64 + 1, "the table found is the one of that number");
                reach("found");
            }
            None => { check(want.is_none(), "a present table is found"); reach("none"); }
        }
        match h.find_table_mut(t) {
            Some((i, table)) => { check(want.map(TableIndex::from) == Some(i) && table.first_page.offset(1) == want.unwrap_or(99) as u64 + 1, "the first table of the type is found for modification"); }
            None => check(want.is_none(), "a present table is found for modification"),
        }
    }
}
