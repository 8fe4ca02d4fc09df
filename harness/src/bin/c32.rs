#![no_main]
//! C32: typed access to the rows of a database and to the content of its pages.
use binrw::{io::Cursor, BinRead, BinWrite};
use fallible_iterator::FallibleIterator;
use harness::img::{well, Img, CODE};
use harness::*;
use rekordcrate::pdb::{io::Database, *};
use PlainPageType as P;

const TYPES: [P; 15] = [P::Tracks, P::Genres, P::Artists, P::Albums, P::Labels, P::Keys, P::Colors, P::PlaylistTree, P::PlaylistEntries, P::HistoryPlaylists, P::HistoryEntries, P::Artwork, P::Columns, P::Menu, P::History];
/// bytes of a row of kind k in which a run of four fixed bytes at `at` is arbitrary
fn row(k: usize, name: &str) -> Vec<u8> {
    let mut b = well(k);
    // where the row has a plain number
    let at = [8, 0, 4, 8, 0, 0, 4, 0, 0, 0, 0, 0, 0, 0, 4, 4, 4][k];
    let n = match k { 12 => 2, 13 => 2, 6 => 0, _ => 4 };
    fill(&mut b[at..at + n], name);
    b
}
fn parse(k: usize, b: &[u8]) -> Option<Row> { Row::read_le_args(&mut Cursor::new(b), (PageType::Plain(TYPES[k]),)).ok() }
fn bytes_of<T: for<'a> BinWrite<Args<'a> = ()>>(r: &T) -> Vec<u8> {
    let mut c = Cursor::new(Vec::new());
    if r.write_le(&mut c).is_err() { check(false, "a row is written"); }
    c.into_inner()
}
/// row `r` of kind `k` viewed as T, which is kind `t`
fn view<T: RowVariant + for<'a> BinWrite<Args<'a> = ()> + for<'a> BinRead<Args<'a> = ()>>(r: &mut Row, k: usize, t: usize) {
    check(T::PAGE_TYPE == PageType::Plain(TYPES[t]), "a row type names the page type that holds it");
    let whole = bytes_of(r);
    match r.as_variant::<T>() {
        Some(v) => {
            check(k == t, "a row is not passed off as one of another type");
            let b = bytes_of(v);
            check(b.len() == whole.len() && same(&b, &whole), "the typed row is the row");
            reach("typed");
        }
        None => { check(k != t, "a row is accessible as its own type"); reach("other type"); }
    }
    match r.as_variant_mut::<T>() {
        Some(v) => {
            check(k == t, "a row is not handed out for editing as one of another type");
            let new = row(t, "new");
            match T::read_le(&mut Cursor::new(&new)) { Ok(n) => *v = n, Err(_) => { check(false, "a well-formed row is read"); return } }
            let want = match v { v => bytes_of(v) };
            let got = bytes_of(r);
            check(got.len() == want.len() && same(&got, &want), "an edit of the typed row is an edit of the row");
            reach("edited");
        }
        None => check(k != t, "a row can be edited as its own type"),
    }
}
fn all(r: &mut Row, k: usize, t: usize) {
    match t {
        0 => view::<Track>(r, k, t), 1 => view::<Genre>(r, k, t), 2 => view::<Artist>(r, k, t), 3 => view::<Album>(r, k, t), 4 => view::<Label>(r, k, t),
        5 => view::<Key>(r, k, t), 6 => view::<Color>(r, k, t), 7 => view::<PlaylistTreeNode>(r, k, t), 8 => view::<PlaylistEntry>(r, k, t), 9 => view::<HistoryPlaylist>(r, k, t),
        10 => view::<HistoryEntry>(r, k, t), 11 => view::<Artwork>(r, k, t), 12 => view::<ColumnEntry>(r, k, t), 13 => view::<Menu>(r, k, t), _ => view::<History>(r, k, t),
    }
}
fn only<T: RowVariant + for<'a> BinWrite<Args<'a> = ()>>(db: &mut Database<Cursor<Vec<u8>>>, want: &[Vec<u8>]) {
    let mut it = match db.iter_rows::<T>() { Ok(i) => i, Err(_) => { check(false, "the table of a row type is found"); return } };
    let mut n = 0;
    loop {
        match it.next() {
            Ok(Some(r)) => {
                check(n < want.len(), "rows of other tables are not included");
                if n >= want.len() { return; }
                let b = bytes_of(r);
                check(b.len() <= want[n].len() && same(&b, &want[n][..b.len()]), "the rows of a type are those of its table");
                n += 1;
                reach("row");
            }
            Ok(None) => break,
            Err(_) => { check(false, "rows of an intact table are read"); return }
        }
    }
    check(n == want.len(), "all rows of a type are found");
}
fn kind_of(r: &Row) -> usize {
    match r {
        Row::Plain(p) => match p {
            PlainRow::Track(_) => 0, PlainRow::Genre(_) => 1, PlainRow::Artist(_) => 2, PlainRow::Album(_) => 3, PlainRow::Label(_) => 4, PlainRow::Key(_) => 5, PlainRow::Color(_) => 6,
            PlainRow::PlaylistTreeNode(_) => 7, PlainRow::PlaylistEntry(_) => 8, PlainRow::HistoryPlaylist(_) => 9, PlainRow::HistoryEntry(_) => 10, PlainRow::Artwork(_) => 11,
            PlainRow::ColumnEntry(_) => 12, PlainRow::Menu(_) => 13, PlainRow::History(_) => 14,
        },
        Row::Ext(ext::ExtRow::Tag(_)) => 15,
        Row::Ext(ext::ExtRow::TrackTag(_)) => 16,
        Row::Unknown => 17,
    }
}
harnesses! {
    // bytes that form a row of one kind, in a table of any kind: a row is what its table says, or an error; params: kind, zeros after it
    fn h_own() {
        let k = param(0) as usize;
        let mut b = row(k, "row");
        b.resize(b.len() + param(1) as usize, 0);
        let t = choose(18, "table") as usize;
        let page = match t { 15 => PageType::Ext(ext::ExtPageType::Tag), 16 => PageType::Ext(ext::ExtPageType::TrackTag), 17 => PageType::Unknown(u32v("type")), _ => PageType::Plain(TYPES[t]) };
        match Row::read_le_args(&mut Cursor::new(&b), (page,)) {
            Ok(r) => { check(kind_of(&r) == t, "a row is of the kind of its table"); reach("own"); }
            Err(_) => { check(k != t && t != 17, "a row of the table's kind is read"); reach("opt:refused"); }
        }
    }
    // a row of each kind, viewed as each type; params: kind
    fn h_view() {
        let k = param(0) as usize;
        let b = row(k, "row");
        for t in 0..15 {
            let mut r = match parse(k, &b) { Some(r) => r, None => { check(false, "a well-formed row is parsed"); return } };
            all(&mut r, k, t);
        }
    }
    // rows of the extended database and of unknown tables are none of the plain types; params: kind
    fn h_foreign() {
        let k = param(0) as usize;
        let b = if k < 17 { row(k, "row") } else { vec(4, "row") };
        let t = match k { 15 => PageType::Ext(ext::ExtPageType::Tag), 16 => PageType::Ext(ext::ExtPageType::TrackTag), _ => PageType::Unknown(u32v("type")) };
        let r = match Row::read_le_args(&mut Cursor::new(&b), (t,)) { Ok(r) => r, Err(_) => { check(false, "a well-formed ext row is parsed"); return } };
        let mut n = 0;
        n += r.as_variant::<Track>().is_some() as u32 + r.as_variant::<Genre>().is_some() as u32 + r.as_variant::<Artist>().is_some() as u32 + r.as_variant::<Album>().is_some() as u32;
        n += r.as_variant::<Label>().is_some() as u32 + r.as_variant::<Key>().is_some() as u32 + r.as_variant::<Color>().is_some() as u32 + r.as_variant::<PlaylistTreeNode>().is_some() as u32;
        n += r.as_variant::<PlaylistEntry>().is_some() as u32 + r.as_variant::<HistoryPlaylist>().is_some() as u32 + r.as_variant::<HistoryEntry>().is_some() as u32 + r.as_variant::<Artwork>().is_some() as u32;
        n += r.as_variant::<ColumnEntry>().is_some() as u32 + r.as_variant::<Menu>().is_some() as u32 + r.as_variant::<History>().is_some() as u32;
        check(n == 0, "a row of the extended database is none of the plain types");
        match (k, &r) { (15, Row::Ext(ext::ExtRow::Tag(_))) | (16, Row::Ext(ext::ExtRow::TrackTag(_))) | (17, Row::Unknown) => reach("kept"), _ => check(false, "a row is of the kind of its page") }
    }
    // a database with tables of all kinds, in any turn of their order; params: kind, rows of it
    fn h_table() {
        let (k, n) = (param(0) as usize, param(1) as usize);
        let turn = choose(15, "turn") as usize;
        let flags = choose(1 << n, "present") as u8;
        let mut kinds = Vec::new();
        for i in 0..15 { kinds.push(CODE[(i + turn) % 15]); }
        let mut img = Img::new(&kinds);
        let mut want = Vec::new();
        for i in 0..15 {
            let t = (i + turn) % 15;
            img.page(2 + 2 * i);
            let rows = if t == k { n } else { 1 };
            for r in 0..rows {
                let b = if t == k { row(t, "row") } else { well(t) };
                img.row(&b);
                if t == k { if flags >> r & 1 == 1 { want.push(b); } else { img.delete(r); } }
            }
        }
        let mut db = match Database::open_non_persistent(Cursor::new(img.b), DatabaseType::Plain) { Ok(d) => d, Err(_) => { check(false, "the database is opened"); return } };
        let db = &mut db;
        match k {
            0 => only::<Track>(db, &want), 1 => only::<Genre>(db, &want), 2 => only::<Artist>(db, &want), 3 => only::<Album>(db, &want), 4 => only::<Label>(db, &want),
            5 => only::<Key>(db, &want), 6 => only::<Color>(db, &want), 7 => only::<PlaylistTreeNode>(db, &want), 8 => only::<PlaylistEntry>(db, &want), 9 => only::<HistoryPlaylist>(db, &want),
            10 => only::<HistoryEntry>(db, &want), 11 => only::<Artwork>(db, &want), 12 => only::<ColumnEntry>(db, &want), 13 => only::<Menu>(db, &want), _ => only::<History>(db, &want),
        }
        reach("table");
    }
    // the content of a page is data or index as its flags say, and is handed out as that only; params: image of an index page
    fn h_content() {
        let mut d = harness::db::Db::new(0x60, 3, 3, 1);
        if param(0) == 1 { d.index(1, 8, 2, 2); let at = 0x60 + 60; fill(&mut d.b[at..at + 8], "entry"); }
        else { d.data(1, 8, 2, 1, 1); let at = d.row(1, 0); fill(&mut d.b[at..at + 12], "row"); }
        let flags = u8v("flags");
        d.b[0x60 + 27] = flags;
        let b = &d.b[0x60..0xc0];
        let index = flags & 0x40 != 0;
        let mut p = match Page::read_le_args(&mut Cursor::new(b), (0x60, DatabaseType::Plain)) { Ok(p) => p, Err(_) => { check(index == (param(0) == 0), "a well-formed page is read"); return } };
        check(p.content.as_index().is_some() == index && p.content.as_index_mut().is_some() == index, "the content of an index page is index entries");
        check(p.content.as_data().is_some() != index && p.content.as_data_mut().is_some() != index, "the content of a data page is rows");
        check(p.content.clone().into_index().is_some() == index && p.content.clone().into_data().is_some() != index, "the content of a page is taken out as what it is");
        if index { reach("index"); } else { reach("data"); }
    }
    // folders are told from playlists by their flag, categories from tags
    fn h_folder() {
        let mut b = well(7);
        fill(&mut b[16..20], "folder");
        let f = u32::from_le_bytes([b[16], b[17], b[18], b[19]]);
        match rd::<PlaylistTreeNode>(&b) {
            Ok((n, _)) => { check(n.is_folder() == (f != 0), "a playlist node is a folder exactly if its flag is not zero"); reach("node"); }
            Err(_) => check(false, "a playlist node is read"),
        }
    }
}
