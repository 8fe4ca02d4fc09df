#![no_main]
//! C06: rows of the extended database.
use binrw::{io::{Cursor, Seek, SeekFrom}, BinRead, BinWrite};
use harness::*;
use rekordcrate::pdb::{ext::*, string::DeviceSQLString, *};
use rekordcrate::util::MaybeCalculated;

fn read(img: &[u8], at: usize, t: ExtPageType) -> Result<(Row, usize), binrw::Error> {
    let mut c = Cursor::new(img);
    let _ = c.seek(SeekFrom::Start(at as u64));
    let r = Row::read_le_args(&mut c, (PageType::Ext(t),))?;
    Ok((r, c.position() as usize))
}
fn roundtrip(img: &[u8], at: usize, end: usize, t: ExtPageType, tail: bool) -> Option<Row> {
    let r = read(img, at, t);
    check(r.is_ok(), "a well-formed row is read");
    let (r, n) = match r { Ok(r) => r, Err(_) => return None };
    if tail { check(n == end, "reading stops at the row's end"); }
    let mut c = Cursor::new(vec![0u8; at]);
    let _ = c.seek(SeekFrom::Start(at as u64));
    let w = r.write_le(&mut c);
    check(w.is_ok(), "a row that was read can be written");
    let w = c.into_inner();
    observe(1, &w);
    check(w.len() == end, "exactly the row's bytes are written");
    if w.len() == end { check(same(&w[at..], &img[at..end]), "the row's bytes are reproduced"); }
    match read(&w, at, t) {
        Ok((r2, _)) => check(r2 == r, "the written row reads back equal"),
        Err(_) => check(false, "the written row can be read"),
    }
    reach("done");
    Some(r)
}
fn le(b: &[u8]) -> u64 { let mut r = 0; for i in 0..b.len() { r |= (b[i] as u64) << (8 * i); } r }
fn text_is(s: &DeviceSQLString, enc: &[u8]) -> bool { match wr(s) { Ok(w) => same(&w, enc), Err(_) => false } }

harnesses! {
    // params: wide, kind and length of the name, kind and length of the second string, its place (0 after, 1 before the name), position
    fn h_tag() {
        let (wide, at) = (param(0) as usize, param(6) as usize);
        let mut img = vec(at + 28, "row");
        assume((img[at] & 4 != 0) == (wide == 1));
        let name = sql(param(1), param(2) as usize, "name");
        let other = sql(param(3), param(4) as usize, "other");
        let first = 28 + 3 * (1 + wide);
        let (a, b) = if param(5) == 0 { (first, first + name.len()) } else { (first + other.len(), first) };
        if wide == 1 { img.extend_from_slice(&[3, 0, a as u8, (a >> 8) as u8, b as u8, (b >> 8) as u8]); } else { img.extend_from_slice(&[3, a as u8, b as u8]); }
        if param(5) == 0 { img.extend_from_slice(&name); img.extend_from_slice(&other); } else { img.extend_from_slice(&other); img.extend_from_slice(&name); }
        let end = img.len();
        img.extend_from_slice(&[0x40, 7]);
        let r = match roundtrip(&img, at, end, ExtPageType::Tag, false) { Some(r) => r, None => return };
        let f = &img[at..];
        if let Row::Ext(ExtRow::Tag(r)) = r {
            check((le(&f[0..2]) == r.subtype.0 as u64) & (le(&f[2..4]) == r.index_shift as u64) & (le(&f[4..8]) == r.unknown1 as u64) & (le(&f[8..12]) == r.unknown2 as u64), "tag fields at their documented offsets");
            check(r.parent_id.0.map_or(0, |v| v.get()) as u64 == le(&f[12..16]), "parent id at its documented offset");
            check((le(&f[16..20]) == r.position as u64) & (le(&f[20..24]) == r.id.0 as u64) & (le(&f[24..28]) == r.raw_is_category as u64), "tag position, id and kind at their documented offsets");
            check(text_is(&r.offsets.name, &name), "tag name");
            check(text_is(&r.offsets.unknown, &other), "second string");
            let mut m = r.clone();
            m.offsets.offsets = MaybeCalculated::Calculated;
            match wr(&m) {
                Ok(w) => match read(&w, 0, ExtPageType::Tag) {
                    Ok((Row::Ext(ExtRow::Tag(b)), _)) => check(b.offsets.inner == r.offsets.inner && b.id == r.id && b.parent_id == r.parent_id && b.position == r.position && b.raw_is_category == r.raw_is_category, "tag with computed offsets reads back"),
                    _ => check(false, "tag with computed offsets can be read"),
                },
                Err(_) => check(false, "tag with computed offsets can be written"),
            }
        } else { check(false, "tag row kind"); }
    }
    fn h_track_tag() {
        let at = param(0) as usize;
        let mut img = vec(at, "before");
        img.extend_from_slice(&[0; 4]);
        img.extend_from_slice(&vec(12, "row"));
        let end = img.len();
        img.extend_from_slice(&[0x40, 7]);
        let r = match roundtrip(&img, at, end, ExtPageType::TrackTag, true) { Some(r) => r, None => return };
        let f = &img[at..];
        if let Row::Ext(ExtRow::TrackTag(r)) = r {
            check((le(&f[4..8]) == r.track_id.0 as u64) & (le(&f[8..12]) == r.tag_id.0 as u64) & (le(&f[12..16]) == r.unknown_const as u64), "link fields at their documented offsets");
        } else { check(false, "track tag row kind"); }
    }
    fn h_marker() {
        let img = vec(16, "row");
        let ok = read(&img, 0, ExtPageType::TrackTag).is_ok();
        check(ok == (le(&img[0..4]) == 0), "links with another marker are rejected");
        reach("marker");
    }
    // the offset table's marker
    fn h_table_marker() {
        let wide = param(0) as usize;
        let mut img = vec(28, "row");
        assume((img[0] & 4 != 0) == (wide == 1));
        let m = u16v("marker");
        img.push(m as u8);
        if wide == 1 { img.push((m >> 8) as u8); }
        let o = 28 + 3 * (1 + wide as u8);
        if wide == 1 { img.extend_from_slice(&[o, 0, o, 0]); } else { img.extend_from_slice(&[o, o]); }
        img.extend_from_slice(&[5, b'x']);
        let ok = read(&img, 0, ExtPageType::Tag).is_ok();
        check(ok == ((m & if wide == 1 { 0xffff } else { 0xff }) == 3), "offset tables with another marker are rejected");
        reach("marker");
    }
    // a link cut short is an error
    fn h_short() {
        let n = param(0) as usize;
        let mut img = vec![0u8; 4];
        img.extend_from_slice(&vec(n, "row"));
        check(read(&img, 0, ExtPageType::TrackTag).is_ok() == (n >= 12), "a link is 16 bytes long");
        reach("short");
    }
}
