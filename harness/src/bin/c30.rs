#![no_main]
//! C30: page numbers, file types, colors and other codes.
use harness::*;
use rekordcrate::pdb::*;
use rekordcrate::util::*;

fn color(code: u8) -> Option<ColorIndex> {
    Some(match code { 0 => ColorIndex::None, 1 => ColorIndex::Pink, 2 => ColorIndex::Red, 3 => ColorIndex::Orange, 4 => ColorIndex::Yellow, 5 => ColorIndex::Green, 6 => ColorIndex::Aqua, 7 => ColorIndex::Blue, 8 => ColorIndex::Purple, _ => return None })
}
fn file_type(code: u16) -> FileType {
    match code { 0 => FileType::Unknown, 1 => FileType::Mp3, 4 => FileType::M4a, 5 => FileType::Flac, 0xb => FileType::Wav, 0xc => FileType::Aiff, c => FileType::Other(c) }
}

harnesses! {
    fn h_page_index() {
        let v = u32v("page");
        match PageIndex::try_from(v) {
            Ok(i) => {
                check(v < 0x03FF_FFFF, "numbers the format cannot store are refused");
                check(i.offset(1) == v as u64, "a page number converts back to the same number");
                let ps = u32v("size");
                check(i.offset(ps) == v as u64 * ps as u64, "the offset of a page is its number times the page size");
                check(match wr(&i) { Ok(w) => same(&w, &v.to_le_bytes()), Err(_) => false }, "a page number is stored in little endian");
                let w = u32v("other");
                if let Ok(j) = PageIndex::try_from(w) { check((i == j) == (v == w), "page numbers are equal exactly when their numbers are"); check((i < j) == (v < w), "page numbers are ordered by their numbers"); }
                reach("valid");
            }
            Err(_) => { check(v >= 0x03FF_FFFF, "numbers the format can store are accepted"); reach("refused"); }
        }
    }
    fn h_stored_index() {
        let b = bytes::<4>("page");
        match rd::<PageIndex>(&b) {
            Ok((i, n)) => {
                let v = u32::from_le_bytes(b);
                let ps = u32v("size");
                check(n == 4 && i.offset(ps) == v as u64 * ps as u64, "offsets of stored page numbers never overflow");
                check(match wr(&i) { Ok(w) => same(&w, &b), Err(_) => false }, "a stored page number is written unchanged");
                reach("stored");
            }
            Err(_) => check(false, "every stored page number is read"),
        }
    }
    fn h_file_type() {
        let b = bytes::<2>("type");
        let code = u16::from_le_bytes(b);
        match rd::<FileType>(&b) {
            Ok((t, n)) => {
                check(n == 2 && t == file_type(code), "every file type code has its meaning, others keep their number");
                check(match wr(&t) { Ok(w) => same(&w, &b), Err(_) => false }, "a file type converts back to its code");
                reach("type");
            }
            Err(_) => check(false, "every file type code is read"),
        }
        match rd_be::<FileType>(&b) { Ok((t, _)) => check(t == file_type(u16::from_be_bytes(b)), "file types follow the byte order"), Err(_) => check(false, "every file type code is read (big endian)") }
    }
    fn h_color() {
        let b = bytes::<1>("color");
        match rd::<ColorIndex>(&b) {
            Ok((c, n)) => {
                check(n == 1 && Some(&c) == color(b[0]).as_ref(), "every color code has its color");
                check(match wr(&c) { Ok(w) => same(&w, &b), Err(_) => false }, "a color converts back to its code");
                reach("color");
            }
            Err(_) => { check(color(b[0]).is_none(), "documented color codes are read"); reach("none"); }
        }
    }
    // ids of all kinds; the offset width marker of a row
    fn h_ids() {
        let b = bytes::<4>("id");
        let v = u32::from_le_bytes(b);
        macro_rules! id { ($t:ident) => { match rd::<$t>(&b) { Ok((t, n)) => { check(n == 4 && t.0 == v, stringify!($t)); check(match wr(&t) { Ok(w) => same(&w, &b), Err(_) => false }, "ids are written unchanged"); } Err(_) => check(false, "every id is read") } } }
        id!(TrackId); id!(ArtworkId); id!(AlbumId); id!(ArtistId); id!(GenreId); id!(KeyId); id!(LabelId); id!(PlaylistTreeNodeId); id!(HistoryPlaylistId);
        let s = bytes::<2>("subtype");
        match rd::<Subtype>(&s) {
            Ok((t, _)) => {
                check(t.0 == u16::from_le_bytes(s), "a subtype keeps its number");
                check((t.get_offset_size() == offset_array::OffsetSize::U16) == (s[0] & 4 != 0), "bit 2 of the subtype selects the offset width");
                check(match wr(&t) { Ok(w) => same(&w, &s), Err(_) => false }, "a subtype is written unchanged");
            }
            Err(_) => check(false, "every subtype is read"),
        }
        reach("ids");
    }
    fn h_table_index() {
        let v = u64v("table") as usize;
        check((TableIndex::from(v) == TableIndex::from(3)) == (v == 3), "table numbers are equal exactly when their numbers are");
        check((TableIndex::from(v) < TableIndex::from(3)) == (v < 3), "table numbers are ordered by their numbers");
        reach("index");
    }
    // alignment; param: alignment
    fn h_align() {
        let a = param(0);
        let v = u64v("offset");
        assume(v <= if a.is_power_of_two() { u64::MAX - a } else { 0xffff });
        let r = align_by(a, v);
        check(r >= v && r - v < a && r % a == 0, "an offset is rounded up to the next multiple");
        reach("aligned");
    }
}
