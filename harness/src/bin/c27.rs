#![no_main]
//! C27: a collection document survives serialization and parsing.
use harness::*;
use rekordcrate::xml::*;

/// text of n ASCII characters that XML can hold (no control characters)
fn words(n: usize, what: &str) -> String {
    let mut v = vec![0u8; n];
    fill(&mut v, what);
    for c in &v { assume(*c >= 0x20 && *c < 0x7f); }
    String::from_utf8(v).unwrap_or_default()
}
/// one letter
fn letter(what: &str) -> String {
    let c = u8v(what);
    assume(c >= b'a' && c <= b'z');
    String::from_utf8(vec![c]).unwrap_or_default()
}
/// text of n characters: 1 any ASCII but NUL, tab and line breaks, 2..4 one to that many bytes each
fn other(n: usize, class: u64, what: &str) -> String {
    let mut v = Vec::new();
    if class == 1 { v = vec(n, what); for c in &v { assume(*c < 0x80 && *c != 0 && !matches!(*c, b'\t' | b'\n' | b'\r')); } } else { for _ in 0..n { push_char(&mut v, class, what); } }
    String::from_utf8(v).unwrap_or_default()
}
fn track() -> Track {
    Track {
        trackid: 1, name: None, artist: None, composer: None, album: None, grouping: None, genre: None, kind: None, size: None, totaltime: None,
        discnumber: None, tracknumber: None, year: None, averagebpm: None, datemodified: None, dateadded: None, bitrate: None, samplerate: None,
        comments: None, playcount: None, lastplayed: None, rating: None, location: String::from("l"), remixer: None, tonality: None, label: None, mix: None,
        colour: None, tempos: vec![], position_marks: vec![],
    }
}
fn full() -> Track {
    let s = |x: &str| Some(String::from(x));
    Track {
        trackid: 1, name: s("n"), artist: s("a"), composer: s("c"), album: s("al"), grouping: s("g"), genre: s("ge"), kind: s("k"), size: Some(5), totaltime: Some(1.0),
        discnumber: Some(1), tracknumber: Some(2), year: Some(3), averagebpm: Some(2.5), datemodified: s("d"), dateadded: s("da"), bitrate: Some(4), samplerate: Some(44100.0),
        comments: s("co"), playcount: Some(6), lastplayed: s("lp"), rating: Some(51), location: String::from("l"), remixer: s("r"), tonality: s("t"), label: s("la"), mix: s("m"),
        colour: s("cl"), tempos: vec![], position_marks: vec![],
    }
}
fn doc(tracks: Vec<Track>, nodes: Vec<PlaylistGenericNode>) -> Document {
    Document {
        version: String::from("1,0,0"),
        product: Product { name: String::from("p"), version: String::from("1"), company: String::from("c") },
        collection: Collection { entries: tracks.len() as i32, track: tracks },
        playlists: Playlists { node: PlaylistFolderNode { name: String::from("ROOT"), nodes } },
    }
}
fn trip(d: &Document) {
    let Ok(s) = quick_xml::se::to_string(d) else { check(false, "every document can be written"); return };
    match quick_xml::de::from_str::<Document>(&s) {
        Ok(e) => { check(e == *d, "the document parsed is the one written"); reach("round trip"); }
        Err(_) => check(false, "a written document can be parsed"),
    }
}
fn trip_whitespace(d: &Document) {
    let Ok(s) = quick_xml::se::to_string(d) else { check(false, "every document can be written"); return };
    match quick_xml::de::from_str::<Document>(&s) {
        Ok(e) => { reach("opt:parsed"); check(e == *d, "opt:tabs and line breaks are kept"); }
        Err(_) => check(false, "a written document can be parsed"),
    }
}
fn playlist(name: String, keytype: String, keys: &[i32]) -> PlaylistGenericNode {
    let mut tracks = Vec::new();
    for k in keys { tracks.push(PlaylistTrack { key: *k }); }
    PlaylistGenericNode::Playlist(PlaylistPlaylistNode { name, keytype, tracks })
}
fn folder(name: String, nodes: Vec<PlaylistGenericNode>) -> PlaylistGenericNode { PlaylistGenericNode::Folder(PlaylistFolderNode { name, nodes }) }
/// the text fields of a track, the first two of the other structures
fn texts(t: &mut Track, k: usize) -> Option<&mut Option<String>> {
    Some(match k {
        0 => &mut t.name, 1 => &mut t.artist, 2 => &mut t.composer, 3 => &mut t.album, 4 => &mut t.grouping, 5 => &mut t.genre, 6 => &mut t.kind,
        7 => &mut t.datemodified, 8 => &mut t.dateadded, 9 => &mut t.comments, 10 => &mut t.lastplayed, 11 => &mut t.remixer, 12 => &mut t.tonality,
        13 => &mut t.label, 14 => &mut t.mix, 15 => &mut t.colour, _ => return None,
    })
}
fn numbers(t: &mut Track, k: usize) -> &mut Option<i32> {
    match k { 0 => &mut t.discnumber, 1 => &mut t.tracknumber, 2 => &mut t.year, 3 => &mut t.bitrate, 4 => &mut t.playcount, _ => &mut t.rating }
}
/// the first tag with this attribute
fn tag<'a>(s: &'a str, attr: &str) -> &'a str {
    let Some(at) = s.find(attr) else { return "" };
    let start = s[..at].rfind('<').unwrap_or(0);
    &s[start..at + s[at..].find('>').unwrap_or(0)]
}
harnesses! {
    // any text in one field; params: field, characters, class (0: printable ASCII, else see `other`)
    fn h_text() {
        let (k, n) = (param(0) as usize, param(1) as usize);
        let s = if param(2) == 0 { words(n, "text") } else { other(n, param(2), "text") };
        let mut t = full();
        let mut d;
        if k < 16 {
            if let Some(f) = texts(&mut t, k) { *f = Some(s); }
            d = doc(vec![t], vec![]);
        } else {
            let mut p = playlist(String::from("x"), String::from("0"), &[1]);
            match k {
                16 => t.location = s.clone(),
                22 => p = playlist(s.clone(), String::from("0"), &[1]),
                23 => p = playlist(String::from("x"), s.clone(), &[1]),
                24 => p = folder(s.clone(), vec![p]),
                25 => t.tempos.push(Tempo { inizio: 1.0, bpm: 2.5, metro: s.clone(), battito: 1 }),
                26 => t.position_marks.push(PositionMark { name: s.clone(), mark_type: 0, start: 0.25, end: None, num: -1 }),
                _ => {}
            }
            d = doc(vec![t], vec![p]);
            match k { 17 => d.version = s, 18 => d.product.name = s, 19 => d.product.version = s, 20 => d.product.company = s, 21 => d.playlists.node.name = s, _ => {} }
        }
        trip(&d);
    }
    // line breaks and tabs; params: field
    fn h_whitespace() {
        let s = String::from(["\t", "\n", "\r"][choose(3, "which") as usize]);
        let mut t = full();
        if param(0) == 0 { t.comments = Some(s); trip_whitespace(&doc(vec![t], vec![])); }
        else { trip_whitespace(&doc(vec![t], vec![playlist(s, String::from("0"), &[1])])); }
    }
    // absent fields stay absent; params: field (16 to 21: numbers, 22 to 25: others, 26: all)
    fn h_absent() {
        let k = param(0) as usize;
        let mut t = if k == 26 { track() } else { full() };
        if k < 16 { if let Some(f) = texts(&mut t, k) { *f = None; } }
        else if k < 22 { *numbers(&mut t, k - 16) = None; }
        else { match k { 22 => t.size = None, 23 => t.totaltime = None, 24 => t.averagebpm = None, 25 => t.samplerate = None, _ => {} } }
        trip(&doc(vec![t], vec![playlist(String::from("x"), String::from("0"), &[1])]));
    }
    // params: tracks, nodes of the root, nodes of a folder (255: no folder), keys of a playlist
    fn h_empty() {
        let mut tracks = Vec::new();
        for i in 0..param(0) { let mut t = full(); t.trackid = i as i32; tracks.push(t); }
        let mut nodes = Vec::new();
        for _ in 0..param(1) { nodes.push(playlist(String::from("x"), String::from("0"), &[1, 2, 3][..param(3) as usize])); }
        if param(2) != 255 {
            let mut inner = Vec::new();
            for _ in 0..param(2) { inner.push(playlist(String::from("y"), String::from("1"), &[7, 8, 9][..param(3) as usize])); }
            nodes.push(folder(String::from("f"), inner));
        }
        trip(&doc(tracks, nodes));
    }
    // any number in one field; params: field, decimal digits
    fn h_number() {
        let (k, n) = (param(0) as usize, param(1) as u32);
        let v = u32v("number") as i32;
        let bound = 10i64.pow(n);
        assume((v as i64) < bound && (v as i64) > -bound);
        let mut t = full();
        let mut p = playlist(String::from("x"), String::from("0"), &[1]);
        match k {
            0..=5 => *numbers(&mut t, k) = Some(v),
            6 => t.trackid = v,
            7 => t.size = Some(v as i64),
            8 => p = playlist(String::from("x"), String::from("0"), &[v, 1]),
            9 => t.tempos.push(Tempo { inizio: 1.0, bpm: 2.5, metro: String::from("4/4"), battito: v }),
            10 => t.position_marks.push(PositionMark { name: String::from("m"), mark_type: v, start: 0.25, end: Some(1.5), num: 2 }),
            11 => t.position_marks.push(PositionMark { name: String::from("m"), mark_type: 1, start: 0.25, end: None, num: v }),
            _ => {}
        }
        let mut d = doc(vec![t], vec![p]);
        if k == 12 { d.collection.entries = v; }
        trip(&d);
    }
    // numbers with fractions; params: field
    fn h_float() {
        let l = [0.0, 1.0, 0.1, 128.0, 174.99, 44100.0, 0.30000000000000004, 1e-7, 123456789.125, 5e-324, f64::MAX, -1.5];
        let v = l[choose(l.len() as u64, "value") as usize];
        let mut t = full();
        match param(0) {
            0 => t.totaltime = Some(v), 1 => t.averagebpm = Some(v), 2 => t.samplerate = Some(v),
            3 => t.tempos.push(Tempo { inizio: v, bpm: 2.5, metro: String::from("4/4"), battito: 1 }),
            4 => t.tempos.push(Tempo { inizio: 1.0, bpm: v, metro: String::from("4/4"), battito: 1 }),
            5 => t.position_marks.push(PositionMark { name: String::from("m"), mark_type: 0, start: v, end: None, num: 2 }),
            _ => t.position_marks.push(PositionMark { name: String::from("m"), mark_type: 0, start: 1.0, end: Some(v), num: 2 }),
        }
        trip(&doc(vec![t], vec![]));
    }
    // several tempos and marks keep their order; params: tempos, marks
    fn h_many() {
        let mut t = full();
        for _ in 0..param(0) { t.tempos.push(Tempo { inizio: 1.0, bpm: 2.5, metro: letter("metro"), battito: (u8v("beat") % 9) as i32 }); }
        for _ in 0..param(1) { t.position_marks.push(PositionMark { name: letter("name"), mark_type: (u8v("type") % 5) as i32, start: 1.0, end: if boolv("end") { Some(2.0) } else { None }, num: (u8v("num") % 9) as i32 - 1 }); }
        let mut u = track();
        u.location = letter("location");
        u.trackid = (u8v("id") % 9) as i32;
        trip(&doc(vec![t, u], vec![]));
    }
    // nodes nested in any shape: the shape is a number of 2-bit choices (close, playlist, folder, playlist without keys); params: choices
    fn h_shape() {
        let mut open: Vec<(String, Vec<PlaylistGenericNode>)> = vec![(String::from("ROOT"), vec![])];
        for _ in 0..param(0) {
            match choose(4, "step") {
                0 => if open.len() > 1 { if let Some((n, c)) = open.pop() { let f = folder(n, c); if let Some(l) = open.last_mut() { l.1.push(f); } } },
                1 => { let p = playlist(letter("name"), String::from("0"), &[1, 2]); if let Some(l) = open.last_mut() { l.1.push(p); } }
                2 => open.push((letter("name"), vec![])),
                _ => { let p = playlist(letter("name"), String::from("1"), &[]); if let Some(l) = open.last_mut() { l.1.push(p); } }
            }
        }
        while open.len() > 1 { if let Some((n, c)) = open.pop() { let f = folder(n, c); if let Some(l) = open.last_mut() { l.1.push(f); } } }
        let nodes = open.pop().map(|o| o.1).unwrap_or_default();
        trip(&doc(vec![], nodes));
    }
    // the written counts are the numbers of children
    fn h_counts() {
        let (n, k) = (choose(4, "nodes") as usize, choose(4, "keys") as usize);
        let mut nodes = Vec::new();
        for _ in 0..n { nodes.push(playlist(String::from("x"), String::from("0"), &[7, 8, 9][..k])); }
        let d = doc(vec![], vec![folder(String::from("f"), nodes)]);
        let Ok(s) = quick_xml::se::to_string(&d) else { check(false, "every document can be written (counts)"); return };
        let digits = ["0", "1", "2", "3"];
        check(tag(&s, " Name=\"f\"").contains(&[" Count=\"", digits[n], "\""].concat()), "a folder states how many nodes it has");
        check(n == 0 || tag(&s, " Name=\"x\"").contains(&[" Entries=\"", digits[k], "\""].concat()), "a playlist states how many tracks it has");
        reach("counts");
    }
    // long lists; params: nodes in a folder, keys in a playlist
    fn h_wide() {
        let mut nodes = Vec::new();
        for _ in 0..param(0) { nodes.push(playlist(String::from("x"), String::from("0"), &[])); }
        let mut p = PlaylistPlaylistNode { name: letter("name"), keytype: String::from("0"), tracks: vec![] };
        for i in 0..param(1) { p.tracks.push(PlaylistTrack { key: i as i32 }); }
        trip(&doc(vec![], vec![folder(letter("folder"), nodes), PlaylistGenericNode::Playlist(p)]));
    }
    // attributes of a node come in any order; params: kind
    fn h_order() {
        let list = param(0) == 1;
        let a = words(1, "name");
        assume(!matches!(a.as_bytes()[0], b'<' | b'>' | b'&' | b'"'));
        let attrs: Vec<String> = if list {
            vec![["Name=\"", &a, "\" "].concat(), String::from("Type=\"1\" "), String::from("Entries=\"1\" "), String::from("KeyType=\"0\" ")]
        } else { vec![["Name=\"", &a, "\" "].concat(), String::from("Type=\"0\" "), String::from("Count=\"0\" ")] };
        let mut left: Vec<usize> = (0..attrs.len()).collect();
        let mut s = String::from("<DJ_PLAYLISTS Version=\"1,0,0\"><PRODUCT Name=\"p\" Version=\"1\" Company=\"c\"/><COLLECTION Entries=\"0\"></COLLECTION><PLAYLISTS><NODE Type=\"0\" Name=\"ROOT\" Count=\"1\"><NODE ");
        while !left.is_empty() { let i = left.remove(choose(left.len() as u64, "pick") as usize); s.push_str(&attrs[i]); }
        s.push_str(if list { "><TRACK Key=\"5\"/></NODE></NODE></PLAYLISTS></DJ_PLAYLISTS>" } else { "></NODE></NODE></PLAYLISTS></DJ_PLAYLISTS>" });
        let want = doc(vec![], vec![if list { playlist(a, String::from("0"), &[5]) } else { folder(a, vec![]) }]);
        match quick_xml::de::from_str::<Document>(&s) {
            Ok(d) => { check(d == want, "the order of attributes does not matter"); reach("parsed"); }
            Err(_) => check(false, "a node with its attributes in another order can be parsed"),
        }
    }
    // a damaged document is parsed or refused; params: place, bytes
    fn h_damage() {
        let mut t = full();
        t.tempos.push(Tempo { inizio: 1.0, bpm: 2.5, metro: String::from("4/4"), battito: 1 });
        let d = doc(vec![t], vec![playlist(String::from("x"), String::from("0"), &[1]), folder(String::from("f"), vec![])]);
        let Ok(s) = quick_xml::se::to_string(&d) else { check(false, "every document can be written (damage)"); return };
        let mut b = s.into_bytes();
        let p = param(0) as usize;
        if p >= b.len() { return; }
        let e = b.len().min(p + param(1) as usize);
        fill(&mut b[p..e], "edit");
        let Ok(s) = std::str::from_utf8(&b) else { return };
        if let Ok(d) = quick_xml::de::from_str::<Document>(s) { reach("parsed"); let _ = quick_xml::se::to_string(&d); } else { reach("refused"); }
    }
}
