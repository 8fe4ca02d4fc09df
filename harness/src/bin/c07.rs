#![no_main]
//! C07: row size accounting.
use binrw::{io::Cursor, BinRead};
use harness::*;
use rekordcrate::pdb::{ext::*, offset_array::*, string::DeviceSQLString, *};
use rekordcrate::util::MaybeCalculated;
use rekordcrate::verif_hooks::{name_heap_bytes, row_heap_bytes, string_heap_bytes};
use PlainPageType as P;

fn read(img: &[u8], t: PageType) -> Option<Row> {
    let r = Row::read_le_args(&mut Cursor::new(img), (t,));
    check(r.is_ok(), "a well-formed row is read");
    r.ok()
}
fn exact(r: &Row) { sized(r, false) }
fn sized(r: &Row, padded: bool) {
    match wr(r) {
        Ok(w) => {
            let n = row_heap_bytes(r) as usize;
            observe64(1, n as u64);
            check(n >= w.len(), "the row never needs more than the computed size");
            if !padded { check(n == w.len(), "the computed size is exact without padding"); }
            reach("sized");
        }
        Err(_) => check(false, "the row can be written"),
    }
}
fn string(s: &DeviceSQLString) {
    match wr(s) {
        Ok(w) => { check(string_heap_bytes(s) as usize == w.len(), "the string's computed size is what writing emits"); reach("string"); }
        Err(_) => check(false, "the string can be written"),
    }
}
fn simple(k: u64) -> (P, usize) {
    match k {
        0 => (P::Artwork, 4), 1 => (P::Colors, 8), 2 => (P::Genres, 4), 3 => (P::HistoryPlaylists, 4),
        4 => (P::Keys, 8), 5 => (P::Labels, 4), 6 => (P::PlaylistTree, 20), 7 => (P::Columns, 4),
        8 => (P::HistoryEntries, 12), 9 => (P::PlaylistEntries, 12), _ => (P::Menu, 8),
    }
}
fn push_table(img: &mut Vec<u8>, wide: u64, offs: &[usize]) {
    img.push(3);
    if wide == 1 { img.push(0); }
    for o in offs { img.push(*o as u8); if wide == 1 { img.push((*o >> 8) as u8); } }
}

harnesses! {
    fn h_string() {
        let e = sql(param(0), param(1) as usize, "text");
        match rd::<DeviceSQLString>(&e) { Ok((s, _)) => string(&s), Err(_) => check(false, "a well-formed string is read") }
    }
    fn h_text() {
        if let Ok(s) = DeviceSQLString::new(&text(param(0) as usize, 4, "char")) { string(&s); }
        if let Ok(s) = DeviceSQLString::new(&ascii(param(1) as usize, "ascii")) { string(&s); }
        if let Ok(s) = DeviceSQLString::new_isrc(String::new()) { string(&s); }
    }
    // params: row type, string kind, string length
    fn h_simple() {
        let (t, n) = simple(param(0));
        let mut img = vec(n, "row");
        if param(0) == 1 { assume(img[5] <= 8); }
        if param(0) < 8 { img.extend_from_slice(&sql(param(1), param(2) as usize, "text")); }
        if let Some(r) = read(&img, PageType::Plain(t)) {
            check(row_heap_bytes(&r) as usize == img.len(), "a row needs exactly the bytes it was read from");
            exact(&r);
        }
    }
    fn h_history() {
        let mut img = vec(8, "row");
        img.extend_from_slice(&[0; 4]);
        img.extend_from_slice(&sql(param(0), param(1) as usize, "date"));
        img.extend_from_slice(&[0x19, 0x1e]);
        img.extend_from_slice(&sql(param(2), param(3) as usize, "version"));
        img.extend_from_slice(&sql(param(4), param(5) as usize, "label"));
        if let Some(r) = read(&img, PageType::Plain(P::History)) {
            check(row_heap_bytes(&r) as usize == img.len(), "a sync row needs exactly the bytes it was read from");
            exact(&r);
        }
    }
    fn h_link() {
        let mut img = vec![0u8; 4];
        img.extend_from_slice(&vec(12, "row"));
        if let Some(r) = read(&img, PageType::Ext(ExtPageType::TrackTag)) {
            check(row_heap_bytes(&r) as usize == img.len(), "a link needs exactly the bytes it was read from");
            exact(&r);
        }
    }
    // params: 0 album / 1 artist, wide, string kind, length
    fn h_name() {
        let (k, wide) = (param(0), param(1));
        let (t, n) = if k == 0 { (P::Albums, 20) } else { (P::Artists, 8) };
        let mut img = vec(n, "row");
        assume((img[0] & 4 != 0) == (wide == 1));
        push_table(&mut img, wide, &[n + 2 * (1 + wide as usize)]);
        img.extend_from_slice(&sql(param(2), param(3) as usize, "text"));
        let r = match read(&img, PageType::Plain(t)) { Some(r) => r, None => return };
        check(row_heap_bytes(&r) as usize == img.len(), "a named row needs exactly the bytes it was read from");
        exact(&r);
        if let Row::Plain(PlainRow::Artist(mut a)) = r {
            let size = if wide == 1 { OffsetSize::U16 } else { OffsetSize::U8 };
            check(name_heap_bytes(&a.offsets, size) as usize == img.len() - n, "the offset array's computed size is what writing emits");
            a.offsets.offsets = MaybeCalculated::Calculated;
            check(name_heap_bytes(&a.offsets, size) as usize + n >= img.len(), "computed offsets never need more");
            sized(&Row::Plain(PlainRow::Artist(a)), param(2) == 2);
        }
    }
    // params: wide, kind and length of both strings
    fn h_tag() {
        let wide = param(0);
        let mut img = vec(28, "row");
        assume((img[0] & 4 != 0) == (wide == 1));
        let (a, b) = (sql(param(1), param(2) as usize, "name"), sql(param(3), param(4) as usize, "other"));
        let o = 28 + 3 * (1 + wide as usize);
        push_table(&mut img, wide, &[o, o + a.len()]);
        img.extend_from_slice(&a);
        img.extend_from_slice(&b);
        let r = match read(&img, PageType::Ext(ExtPageType::Tag)) { Some(r) => r, None => return };
        check(row_heap_bytes(&r) as usize == img.len(), "a tag needs exactly the bytes it was read from");
        exact(&r);
        if let Row::Ext(ExtRow::Tag(mut t)) = r {
            t.offsets.offsets = MaybeCalculated::Calculated;
            sized(&Row::Ext(ExtRow::Tag(t)), (param(1) == 2) | (param(3) == 2));
        }
    }
    // params: wide, arbitrary strings: index, kind, length (two of them)
    fn h_track() {
        let wide = param(0);
        let mut strings: Vec<Vec<u8>> = (0..21).map(|j| if j % 2 == 0 { vec![3u8] } else { vec![5u8, b'A'] }).collect();
        strings[param(1) as usize] = sql(param(2), param(3) as usize, "text");
        strings[param(4) as usize] = sql(param(5), param(6) as usize, "other");
        let mut img = vec(0x5c, "row");
        assume((img[0] & 4 != 0) == (wide == 1));
        assume(img[88] <= 8);
        let mut o = 0x5c + 22 * (1 + wide as usize);
        let mut offs = [0; 21];
        for i in 0..21 { offs[i] = o; o += strings[i].len(); }
        push_table(&mut img, wide, &offs);
        for s in &strings { img.extend_from_slice(s); }
        let r = match read(&img, PageType::Plain(P::Tracks)) { Some(r) => r, None => return };
        check(row_heap_bytes(&r) as usize == img.len(), "a track needs exactly the bytes it was read from");
        exact(&r);
        if let Row::Plain(PlainRow::Track(mut t)) = r {
            t.offsets.offsets = MaybeCalculated::Calculated;
            sized(&Row::Plain(PlainRow::Track(t)), (param(2) == 2) | (param(5) == 2));
        }
    }
    // texts of any small shape under computed offsets
    fn h_tag_text() {
        let wide = param(0);
        let mut img = vec![0u8; 28];
        img[0] = 4 * wide as u8;
        push_table(&mut img, wide, &[40, 40]);
        img.resize(40, 0);
        img.push(3);
        if let Some(Row::Ext(ExtRow::Tag(mut t))) = read(&img, PageType::Ext(ExtPageType::Tag)) {
            t.offsets.inner.name = DeviceSQLString::new(&text(choose(3, "n") as usize, 4, "name")).unwrap_or_default();
            t.offsets.inner.unknown = DeviceSQLString::new(&text(choose(2, "n") as usize, 4, "other")).unwrap_or_default();
            t.offsets.offsets = MaybeCalculated::Calculated;
            sized(&Row::Ext(ExtRow::Tag(t)), true);
        }
    }
}
