#![no_main]
//! C05: rows of the main database.
use binrw::{io::{Cursor, Seek, SeekFrom}, BinRead, BinWrite};
use harness::*;
use rekordcrate::pdb::{string::DeviceSQLString, *};
use rekordcrate::util::{ColorIndex, FileType};
use PlainPageType as P;

fn read(img: &[u8], at: usize, t: P) -> Result<(Row, usize), binrw::Error> {
    let mut c = Cursor::new(img);
    let _ = c.seek(SeekFrom::Start(at as u64));
    let r = Row::read_le_args(&mut c, (PageType::Plain(t),))?;
    Ok((r, c.position() as usize))
}
/// `img[at..end]` is a row; `tail` tells that the row ends with its last field (no offset array)
fn roundtrip(img: &[u8], at: usize, end: usize, t: P, tail: bool) -> Option<Row> {
    let r = read(img, at, t);
    check(r.is_ok(), "a well-formed row is read");
    let (r, n) = match r { Ok(r) => r, Err(_) => return None };
    if tail { check(n == end, "reading stops at the row's end"); }
    let mut c = Cursor::new(vec![0u8; at]);
    let _ = c.seek(SeekFrom::Start(at as u64));
    let w = r.write_le(&mut c);
    check(w.is_ok(), "a row that was read can be written");
    let w = c.into_inner();
    observe(1, &w);
    check(w.len() == end, "exactly the row's bytes are written");
    if w.len() == end { check(same(&w[at..], &img[at..end]), "the row's bytes are reproduced"); }
    match read(&w, at, t) {
        Ok((r2, _)) => check(r2 == r, "the written row reads back equal"),
        Err(_) => check(false, "the written row can be read"),
    }
    reach("done");
    Some(r)
}
fn le(b: &[u8]) -> u64 { let mut r = 0; for i in 0..b.len() { r |= (b[i] as u64) << (8 * i); } r }
fn text_is(s: &DeviceSQLString, enc: &[u8]) -> bool { match wr(s) { Ok(w) => same(&w, enc), Err(_) => false } }

/// fixed part of every row type: (page type, bytes before the string, number of strings)
fn shape(k: u64) -> (P, usize) {
    match k {
        0 => (P::Artwork, 4), 1 => (P::Colors, 8), 2 => (P::Genres, 4), 3 => (P::HistoryPlaylists, 4),
        4 => (P::Keys, 8), 5 => (P::Labels, 4), 6 => (P::PlaylistTree, 20), 7 => (P::Columns, 4),
        8 => (P::HistoryEntries, 12), 9 => (P::PlaylistEntries, 12), _ => (P::Menu, 8),
    }
}
const LABELS: [&[(usize, usize, &str)]; 11] = [
    &[(0, 4, " id: ArtworkId(")],
    &[(0, 4, "unknown1: "), (4, 1, "unknown2: "), (6, 2, "unknown3: ")],
    &[(0, 4, " id: GenreId(")],
    &[(0, 4, " id: HistoryPlaylistId(")],
    &[(0, 4, " id: KeyId("), (4, 4, "id2: ")],
    &[(0, 4, " id: LabelId(")],
    &[(0, 4, "parent_id: PlaylistTreeNodeId("), (4, 4, "unknown: "), (8, 4, "sort_order: "), (12, 4, " id: PlaylistTreeNodeId("), (16, 4, "node_is_folder: ")],
    &[(0, 2, " id: "), (2, 2, "unknown0: ")],
    &[(0, 4, "track_id: TrackId("), (4, 4, "playlist_id: HistoryPlaylistId("), (8, 4, "entry_index: ")],
    &[(0, 4, "entry_index: "), (4, 4, "track_id: TrackId("), (8, 4, "playlist_id: PlaylistTreeNodeId(")],
    &[(0, 2, "category_id: "), (2, 2, "content_pointer: "), (4, 1, "unknown: "), (6, 2, "sort_order: ")],
];
const TRACK: &[(usize, usize, &str)] = &[
    (2, 2, "index_shift: "), (4, 4, "bitmask: "), (8, 4, "sample_rate: "), (12, 4, "composer_id: ArtistId("), (16, 4, "file_size: "), (20, 4, "unknown2: "), (24, 2, "unknown3: "), (26, 2, "unknown4: "),
    (28, 4, "artwork_id: ArtworkId("), (32, 4, "key_id: KeyId("), (36, 4, "orig_artist_id: ArtistId("), (40, 4, "label_id: LabelId("), (44, 4, "remixer_id: ArtistId("), (48, 4, "bitrate: "), (52, 4, "track_number: "), (56, 4, "tempo: "),
    (60, 4, "genre_id: GenreId("), (64, 4, "album_id: AlbumId("), (68, 4, " artist_id: ArtistId("), (72, 4, " id: TrackId("), (76, 2, "disc_number: "), (78, 2, "play_count: "), (80, 2, "year: "), (82, 2, "sample_depth: "), (84, 2, "duration: "), (86, 2, "unknown5: "), (89, 1, "rating: "),
];
const TRACK_STRINGS: [&str; 21] = ["isrc", "lyricist", "unknown_string2", "unknown_string3", "unknown_string4", "message", "publish_track_information", "autoload_hotcues", "unknown_string5", "unknown_string6", "date_added", "release_date", "mix_name", "unknown_string7", "analyze_path", "analyze_date", "comment", "title", "unknown_string8", "filename", "file_path"];
const ALBUM: &[(usize, usize, &str)] = &[(2, 2, "index_shift: "), (4, 4, "unknown2: "), (8, 4, "artist_id: ArtistId("), (12, 4, " id: AlbumId("), (16, 4, "unknown3: ")];
const ARTIST: &[(usize, usize, &str)] = &[(2, 2, "index_shift: "), (4, 4, " id: ArtistId(")];
const HISTORY: &[(usize, usize, &str)] = &[(0, 2, "subtype: Subtype("), (2, 2, "index_shift: "), (4, 4, "num_tracks: ")];

/// concrete image of the given field table with the bytes of field `i` arbitrary
fn one_field(img: &mut [u8], fields: &[(usize, usize, &str)], i: usize) -> u64 {
    let (o, n, _) = fields[i];
    fill(&mut img[o..o + n], "field");
    le(&img[o..o + n])
}
fn debug_shows(img: &[u8], t: P, label: &str, v: u64) {
    match read(img, 0, t) {
        Ok((r, _)) => { let d = format!("{r:?}"); check(shows(&d, label, &v.to_string()), "the field shows the value stored at its documented offset"); reach("shown"); }
        Err(_) => check(false, "a well-formed row is read (field)"),
    }
}
fn track_image(wide: u64, strings: &[Vec<u8>], order: u64) -> (Vec<u8>, usize) {
    let w = 1 + wide as usize;
    let mut img = vec![0u8; 0x5c + 22 * w];
    img[0] = 0x24 & !4 | (4 * wide) as u8;
    img[0x5c] = 3;
    for k in 0..21 {
        let i = if order == 1 { 20 - k } else { k };
        let o = img.len();
        img[0x5c + (i + 1) * w] = o as u8;
        if wide == 1 { img[0x5c + (i + 1) * w + 1] = (o >> 8) as u8; }
        img.extend_from_slice(&strings[i]);
    }
    let n = img.len();
    (img, n)
}
fn fixed_track(img: &mut [u8]) {
    fill(&mut img[1..0x5c], "fixed");
    assume(img[88] <= 8);
}

harnesses! {
    // params: row type, string kind, string length, position of the row
    fn h_simple() {
        let (t, n) = shape(param(0));
        let at = param(3) as usize;
        let mut img = vec(at + n, "row");
        if param(0) == 1 { assume(img[at + 5] <= 8); }
        let mut enc = Vec::new();
        if param(0) < 8 { enc = sql(param(1), param(2) as usize, "text"); img.extend_from_slice(&enc); }
        let end = img.len();
        img.extend_from_slice(&[0x40, 7]);
        let r = match roundtrip(&img, at, end, t, true) { Some(r) => r, None => return };
        let f = &img[at..];
        match r {
            Row::Plain(PlainRow::PlaylistTreeNode(r)) => {
                check((le(&f[0..4]) == r.parent_id.0 as u64) & (le(&f[12..16]) == r.id.0 as u64), "node ids at their documented offsets");
                check(r.is_folder() == (le(&f[16..20]) != 0), "a node is a folder exactly when its marker is not zero");
                check(text_is(&r.name, &enc), "node name");
            }
            Row::Plain(PlainRow::PlaylistEntry(r)) => check((le(&f[0..4]) == r.entry_index as u64) & (le(&f[4..8]) == r.track_id.0 as u64) & (le(&f[8..12]) == r.playlist_id.0 as u64), "entry fields at their documented offsets"),
            Row::Plain(PlainRow::ColumnEntry(r)) => check(text_is(&r.column_name, &enc), "column name"),
            Row::Plain(PlainRow::Menu(r)) => {
                check((le(&f[0..2]) == r.category_id as u64) & (le(&f[2..4]) == r.content_pointer as u64) & (f[4] == r.unknown) & (le(&f[6..8]) == r.sort_order as u64), "menu fields at their documented offsets");
                let v = match r.visibility { MenuVisibility::Visible => 0, MenuVisibility::Hidden => 1, MenuVisibility::Unknown(x) => { check(x > 1, "known visibility codes are named"); x } };
                check(v == f[5], "menu visibility code");
            }
            Row::Plain(PlainRow::Artwork(_)) => check(param(0) == 0, "artwork row kind"),
            Row::Plain(PlainRow::Color(_)) => check(param(0) == 1, "color row kind"),
            Row::Plain(PlainRow::Genre(_)) => check(param(0) == 2, "genre row kind"),
            Row::Plain(PlainRow::HistoryPlaylist(_)) => check(param(0) == 3, "history playlist row kind"),
            Row::Plain(PlainRow::Key(_)) => check(param(0) == 4, "key row kind"),
            Row::Plain(PlainRow::Label(_)) => check(param(0) == 5, "label row kind"),
            Row::Plain(PlainRow::HistoryEntry(_)) => check(param(0) == 8, "history entry row kind"),
            _ => check(false, "row kind follows the page type"),
        }
    }
    // colors outside the documented range are errors
    fn h_color() {
        let mut img = vec(8, "row");
        img.extend_from_slice(&[3]);
        let ok = read(&img, 0, P::Colors).is_ok();
        check(ok == (img[5] <= 8), "a color row is read exactly when its color code is documented");
        reach("color");
    }
    fn h_history() {
        let at = param(3) as usize;
        let mut img = vec(at + 8, "row");
        img.extend_from_slice(&[0; 4]);
        img.extend_from_slice(&sql(param(0), param(1) as usize, "date"));
        img.extend_from_slice(&[0x19, 0x1e]);
        img.extend_from_slice(&sql(0, 4, "version"));
        img.extend_from_slice(&sql(param(2), param(1) as usize, "label"));
        let end = img.len();
        img.extend_from_slice(&[0x40, 7]);
        roundtrip(&img, at, end, P::History, true);
    }
    fn h_history_marker() {
        let mut img = vec(8, "row");
        let m: [u8; 4] = bytes("marker");
        img.extend_from_slice(&m);
        img.extend_from_slice(&[5, b'x']);
        let v: [u8; 2] = bytes("marker2");
        img.extend_from_slice(&v);
        img.extend_from_slice(&[3, 3]);
        let ok = read(&img, 0, P::History).is_ok();
        check(ok == ((le(&m) == 0) & (le(&v) == 0x1e19)), "sync rows with other markers are rejected");
        reach("marker");
    }
    // params: 0 album / 1 artist, wide, string kind, length, gap before the string, position
    fn h_name() {
        let (k, wide, gap, at) = (param(0), param(1) as usize, param(4) as usize, param(5) as usize);
        let (t, n) = if k == 0 { (P::Albums, 20) } else { (P::Artists, 8) };
        let mut img = vec(at + n, "row");
        assume((img[at] & 4 != 0) == (wide == 1));
        let enc = sql(param(2), param(3) as usize, "text");
        let o = n + 2 * (1 + wide) + gap;
        if wide == 1 { img.extend_from_slice(&[3, 0, o as u8, (o >> 8) as u8]); } else { img.extend_from_slice(&[3, o as u8]); }
        for _ in 0..gap { img.push(0); }
        img.extend_from_slice(&enc);
        let end = img.len();
        img.extend_from_slice(&[0x40, 7]);
        let r = match roundtrip(&img, at, end, t, false) { Some(r) => r, None => return };
        match r {
            Row::Plain(PlainRow::Artist(r)) => {
                check((k == 1) & (le(&img[at + 4..at + 8]) == r.id.0 as u64), "artist id at its documented offset");
                check(text_is(&r.offsets.name, &enc), "artist name");
                // the name re-laid out after the table
                let mut m = r.clone();
                m.offsets.offsets = rekordcrate::util::MaybeCalculated::Calculated;
                match wr(&m) {
                    Ok(w) => match read(&w, 0, t) {
                        Ok((Row::Plain(PlainRow::Artist(b)), _)) => check(b.offsets.inner == r.offsets.inner && b.id == r.id, "artist with computed offsets reads back"),
                        _ => check(false, "artist with computed offsets can be read"),
                    },
                    Err(_) => check(false, "artist with computed offsets can be written"),
                }
            }
            Row::Plain(PlainRow::Album(_)) => check(k == 0, "album row kind"),
            _ => check(false, "row kind follows the page type (name)"),
        }
    }
    // params: wide, index of the string that is arbitrary, its kind, its length, string order
    fn h_track() {
        let (wide, i) = (param(0), param(1) as usize);
        let mut strings: Vec<Vec<u8>> = (0..21).map(|j| vec![(2 + (j % 2) * 1) as u8 * 2 + 1, 0x41 + j as u8, 0x30].into_iter().take(1 + (1 + j % 2)).collect()).collect();
        strings[i] = sql(param(2), param(3) as usize, "text");
        let (mut img, end) = track_image(wide, &strings, param(4));
        fixed_track(&mut img);
        img.extend_from_slice(&[0x40, 7]);
        let r = match roundtrip(&img, 0, end, P::Tracks, false) { Some(r) => r, None => return };
        if let Row::Plain(PlainRow::Track(r)) = r {
            check((le(&img[68..72]) == r.artist_id.0 as u64) & (le(&img[72..76]) == r.id.0 as u64) & (img[89] == r.rating), "track fields at their documented offsets");
            check(text_is(&r.offsets.title, &strings[17]), "track title");
            check(text_is(&r.offsets.file_path, &strings[20]), "track file path");
            let mut m = r.clone();
            m.offsets.offsets = rekordcrate::util::MaybeCalculated::Calculated;
            match wr(&m) {
                Ok(w) => match read(&w, 0, P::Tracks) {
                    Ok((Row::Plain(PlainRow::Track(b)), _)) => check(b.offsets.inner == r.offsets.inner, "track with computed offsets reads back"),
                    _ => check(false, "track with computed offsets can be read"),
                },
                Err(_) => check(false, "track with computed offsets can be written"),
            }
        } else { check(false, "track row kind"); }
    }
    // the subtype's 0x04 bit alone selects the offset width
    fn h_subtype() {
        let s = u16v("subtype");
        let wide = Subtype(s).get_offset_size() == rekordcrate::pdb::offset_array::OffsetSize::U16;
        check(wide == (s & 4 != 0), "subtype bit 0x04 selects 16-bit offsets");
        reach("subtype");
    }
    // params: row type, field: its value is what the debug form shows under its name
    fn h_field() {
        let (k, i) = (param(0) as usize, param(1) as usize);
        let (t, n) = shape(k as u64);
        let mut img: Vec<u8> = (0..n).map(|b| 1 + b as u8 % 7).collect();
        let v = one_field(&mut img, LABELS[k], i);
        img.extend_from_slice(&[5, b'x']);
        debug_shows(&img, t, LABELS[k][i].2, v);
    }
    fn h_history_field() {
        let mut img: Vec<u8> = (0..8).map(|b| 1 + b).collect();
        img.extend_from_slice(&[0; 4]);
        img.extend_from_slice(&[5, b'd', 0x19, 0x1e, 5, b'v', 5, b'l']);
        let v = one_field(&mut img, HISTORY, param(0) as usize);
        debug_shows(&img, P::History, HISTORY[param(0) as usize].2, v);
    }
    fn h_name_field() {
        let (k, i) = (param(0), param(1) as usize);
        let (t, n, f) = if k == 0 { (P::Albums, 20, ALBUM) } else { (P::Artists, 8, ARTIST) };
        let mut img: Vec<u8> = (0..n).map(|b| 1 + b as u8).collect();
        img[0] = 0x80;
        img.extend_from_slice(&[3, n as u8 + 2, 5, b'n']);
        let v = one_field(&mut img, f, i);
        debug_shows(&img, t, f[i].2, v);
    }
    fn h_track_field() {
        let i = param(0) as usize;
        let strings: Vec<Vec<u8>> = (0..21).map(|_| vec![3u8]).collect();
        let (mut img, _) = track_image(0, &strings, 0);
        for b in 2..0x5c { img[b] = b as u8; }
        img[88] = 4;
        img[90] = 1;
        img[91] = 0;
        let v = one_field(&mut img, TRACK, i);
        debug_shows(&img, P::Tracks, TRACK[i].2, v);
    }
    // each of the 21 strings lands in the field of its name
    fn h_track_string() {
        let i = param(0) as usize;
        let mut strings: Vec<Vec<u8>> = (0..21).map(|j| vec![5u8, b'A' + j as u8]).collect();
        let c = u8v("char");
        assume((c >= b'a') & (c <= b'z'));
        strings[i] = vec![5, c];
        let (mut img, _) = track_image(0, &strings, param(1));
        for b in 2..0x5c { img[b] = b as u8; }
        img[88] = 4;
        match read(&img, 0, P::Tracks) {
            Ok((r, _)) => {
                let d = format!("{r:?}");
                let mut l = TRACK_STRINGS[i].to_string();
                l.insert(0, ' ');
                l.push_str(": ");
                let p = d.find(&l);
                check(p.is_some(), "string field is shown");
                if let Some(p) = p {
                    let w = format!("{:?}", rd::<DeviceSQLString>(&strings[i]).map(|x| x.0).unwrap_or_default());
                    let q = &d.as_bytes()[p + l.len()..];
                    check(q.len() >= w.len() && same(&q[..w.len()], w.as_bytes()), "each string lands in the field of its name");
                }
            }
            Err(_) => check(false, "a well-formed track is read"),
        }
    }
    // color and file type codes of a track
    fn h_track_codes() {
        let strings: Vec<Vec<u8>> = (0..21).map(|_| vec![3u8]).collect();
        let (mut img, end) = track_image(param(0), &strings, 0);
        fill(&mut img[88..92], "codes");
        match read(&img, 0, P::Tracks) {
            Ok((r, _)) => {
                check(img[88] <= 8, "undocumented track colors are rejected");
                match wr(&r) { Ok(w) => check(w.len() == end && same(&w, &img), "codes reproduced"), Err(_) => check(false, "track can be written") }
                reach("accepted");
            }
            Err(_) => { check(img[88] > 8, "documented track colors are accepted"); reach("rejected"); }
        }
        let _ = (ColorIndex::None, FileType::Unknown);
    }
}
