#![no_main]
//! C38: collection documents use the documented names, and may be laid out in any way.
use harness::*;
use rekordcrate::xml::*;

/// attributes of a track as the format documents them: 0 to 15 texts, 16 to 21 numbers, then size, fractions, identifier and location
const TRACK: [&str; 28] = [
    "Name", "Artist", "Composer", "Album", "Grouping", "Genre", "Kind", "DateModified", "DateAdded", "Comments", "LastPlayed", "Remixer", "Tonality", "Label", "Mix", "Colour",
    "DiscNumber", "TrackNumber", "Year", "BitRate", "PlayCount", "Rating", "Size", "TotalTime", "AverageBpm", "SampleRate", "TrackID", "Location",
];
const ID: usize = 26;
const LOCATION: usize = 27;
#[derive(PartialEq, Clone)]
enum Value { Absent, Text(String), Whole(i64), Real(f64) }
fn text(x: &Option<String>) -> Value { match x { Some(s) => Value::Text(s.clone()), None => Value::Absent } }
fn whole(x: Option<i32>) -> Value { match x { Some(n) => Value::Whole(n as i64), None => Value::Absent } }
fn real(x: Option<f64>) -> Value { match x { Some(n) => Value::Real(n), None => Value::Absent } }
/// the fields of a track in the order of their names
fn fields(t: &Track) -> Vec<Value> {
    vec![
        text(&t.name), text(&t.artist), text(&t.composer), text(&t.album), text(&t.grouping), text(&t.genre), text(&t.kind), text(&t.datemodified), text(&t.dateadded), text(&t.comments),
        text(&t.lastplayed), text(&t.remixer), text(&t.tonality), text(&t.label), text(&t.mix), text(&t.colour),
        whole(t.discnumber), whole(t.tracknumber), whole(t.year), whole(t.bitrate), whole(t.playcount), whole(t.rating),
        match t.size { Some(n) => Value::Whole(n), None => Value::Absent }, real(t.totaltime), real(t.averagebpm), real(t.samplerate), Value::Whole(t.trackid as i64), Value::Text(t.location.clone()),
    ]
}
/// puts a value into the field of the k-th name
fn put(t: &mut Track, k: usize, v: &Value) {
    match v {
        Value::Text(s) => {
            let s = s.clone();
            match k {
                0 => t.name = Some(s), 1 => t.artist = Some(s), 2 => t.composer = Some(s), 3 => t.album = Some(s), 4 => t.grouping = Some(s), 5 => t.genre = Some(s), 6 => t.kind = Some(s),
                7 => t.datemodified = Some(s), 8 => t.dateadded = Some(s), 9 => t.comments = Some(s), 10 => t.lastplayed = Some(s), 11 => t.remixer = Some(s), 12 => t.tonality = Some(s),
                13 => t.label = Some(s), 14 => t.mix = Some(s), 15 => t.colour = Some(s), _ => t.location = s,
            }
        }
        Value::Whole(n) => match k {
            16 => t.discnumber = Some(*n as i32), 17 => t.tracknumber = Some(*n as i32), 18 => t.year = Some(*n as i32), 19 => t.bitrate = Some(*n as i32), 20 => t.playcount = Some(*n as i32),
            21 => t.rating = Some(*n as i32), 22 => t.size = Some(*n), _ => t.trackid = *n as i32,
        },
        Value::Real(x) => match k { 23 => t.totaltime = Some(*x), 24 => t.averagebpm = Some(*x), _ => t.samplerate = Some(*x) },
        Value::Absent => {}
    }
}
/// text of n characters that need no escaping
fn plain(n: usize, what: &str) -> String {
    let mut v = vec![0u8; n];
    fill(&mut v, what);
    for c in &v { assume(*c >= 0x20 && *c < 0x7f && !matches!(*c, b'<' | b'>' | b'&' | b'"' | b'\'')); }
    String::from_utf8(v).unwrap_or_default()
}
/// n decimal digits and the number they stand for
fn digits(n: usize, what: &str) -> (String, i64) {
    let mut v = vec![0u8; n];
    fill(&mut v, what);
    let mut x = 0i64;
    for c in &v { assume(*c >= b'0' && *c <= b'9'); x = x * 10 + (*c - b'0') as i64; }
    (String::from_utf8(v).unwrap_or_default(), x)
}
/// any value for the k-th attribute of a track, as a text and as a value
fn value(k: usize, n: usize) -> (String, Value) {
    match k {
        16..=22 | ID => { let (s, x) = digits(n, "number"); (s, Value::Whole(x)) }
        23..=25 => { let i = choose(4, "fraction") as usize; (String::from(["0", "128.00", "174.99", "44100"][i]), Value::Real([0.0, 128.0, 174.99, 44100.0][i])) }
        _ => { let s = plain(n, "text"); (s.clone(), Value::Text(s)) }
    }
}
fn around(tracks: &str, nodes: &str) -> String {
    ["<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<DJ_PLAYLISTS Version=\"1.0.0\"><PRODUCT Name=\"rekordbox\" Version=\"6.0\" Company=\"AlphaTheta\"/><COLLECTION Entries=\"1\">", tracks, "</COLLECTION><PLAYLISTS><NODE Type=\"0\" Name=\"ROOT\" Count=\"0\">", nodes, "</NODE></PLAYLISTS></DJ_PLAYLISTS>"].concat()
}
fn parsed(s: &str) -> Option<Document> { quick_xml::de::from_str::<Document>(s).ok() }
fn attr(name: &str, v: &str) -> String { [" ", name, "=\"", v, "\""].concat() }
fn empty(t: Vec<Track>, nodes: Vec<PlaylistGenericNode>) -> Document {
    Document {
        version: String::from("1.0.0"),
        product: Product { name: String::from("rekordbox"), version: String::from("6.0"), company: String::from("AlphaTheta") },
        collection: Collection { entries: 1, track: t },
        playlists: Playlists { node: PlaylistFolderNode { name: String::from("ROOT"), nodes } },
    }
}
/// how often a text occurs in another
fn times(s: &str, what: &str) -> usize { s.matches(what).count() }
/// whether the first element of this name starting with a certain attribute or anything has these attributes, in any order
fn element(all: &str, start: &str, attrs: &[String]) -> bool {
    let Some(at) = all.find(start) else { return false };
    let Some(end) = all[at..].find('>') else { return false };
    let tag = &all[at..at + end];
    let mut known = 0;
    for a in attrs {
        if times(tag, a) < 1 { return false; }
        known += times(a, "=\"");
    }
    times(tag, "=\"") == known
}
/// a space between attributes
fn gap() -> &'static str { ["  ", "\n", "\t", "\r\n "][choose(4, "gap") as usize] }
fn between() -> &'static str { ["", "\n  ", "<!-- a -->", "\t<!---->\r\n"][choose(4, "between") as usize] }
fn track() -> Track {
    Track {
        trackid: 1, name: None, artist: None, composer: None, album: None, grouping: None, genre: None, kind: None, size: None, totaltime: None,
        discnumber: None, tracknumber: None, year: None, averagebpm: None, datemodified: None, dateadded: None, bitrate: None, samplerate: None,
        comments: None, playcount: None, lastplayed: None, rating: None, location: String::from("l"), remixer: None, tonality: None, label: None, mix: None,
        colour: None, tempos: vec![], position_marks: vec![],
    }
}
harnesses! {
    // one attribute of a track and no other optional one; params: name, characters
    fn h_read() {
        let (k, n) = (param(0) as usize, param(1) as usize);
        let (s, v) = value(k, n);
        let mut want = track();
        put(&mut want, k, &v);
        let mut tag = String::from("<TRACK");
        if k != ID { tag.push_str(&attr("TrackID", "1")); }
        if k != LOCATION { tag.push_str(&attr("Location", "l")); }
        tag.push_str(&attr(TRACK[k], &s));
        tag.push_str("/>");
        match parsed(&around(&tag, "")) {
            Some(d) => match d.collection.track.first() {
                Some(t) => {
                    let (f, w) = (fields(t), fields(&want));
                    check(f[k] == v, "an attribute reaches the field of its name");
                    let mut others = true;
                    for i in 0..28 { if i != k { others &= f[i] == w[i]; } }
                    check(others, "it reaches no other field");
                    reach("read");
                }
                None => check(false, "the track is there"),
            },
            None => check(false, "a track with one optional attribute can be read"),
        }
    }
    // all attributes at once in some order, none is mixed up; params: first one
    fn h_all() {
        let r = param(0) as usize;
        let mut want = track();
        let mut tag = String::from("<TRACK");
        for i in 0..28 {
            let k = (i * 5 + r) % 28;
            let (s, v) = if (23..=25).contains(&k) { (String::from(["1.5", "2.5", "3.5"][k - 23]), Value::Real([1.5, 2.5, 3.5][k - 23])) } else { value(k, 1) };
            put(&mut want, k, &v);
            tag.push_str(&attr(TRACK[k], &s));
        }
        tag.push_str("></TRACK>");
        match parsed(&around(&tag, "")) {
            Some(d) => { check(d == empty(vec![want], vec![]), "every attribute reaches the field of its name"); reach("all"); }
            None => check(false, "a track with all attributes can be read"),
        }
    }
    // a field is written under its name, and absent ones are not; params: name, characters
    fn h_write() {
        let (k, n) = (param(0) as usize, param(1) as usize);
        let v = match k {
            16..=22 | ID => { let x = u8v("number"); assume(n > 1 && x < 100 || x < 10); Value::Whole(x as i64) }
            23..=25 => Value::Real([0.0, 128.5, 174.99][choose(3, "fraction") as usize]),
            _ => Value::Text(plain(n, "text")),
        };
        let mut t = track();
        put(&mut t, k, &v);
        let s = match &v { Value::Text(s) => s.clone(), Value::Whole(x) => x.to_string(), Value::Real(x) => x.to_string(), Value::Absent => String::new() };
        let Ok(all) = quick_xml::se::to_string(&empty(vec![t], vec![])) else { check(false, "every document can be written"); return };
        let Some(at) = all.find("<TRACK") else { check(false, "a track is written under its name"); return };
        let Some(end) = all[at..].find('>') else { check(false, "the track ends"); return };
        let tag = &all[at..at + end];
        check(times(tag, &attr(TRACK[k], &s)) == 1, "a field is written as the attribute of its name");
        // the text itself may end in an equals sign
        check(times(tag, "=\"") == times(&attr(TRACK[k], &s), "=\"") + if k == ID || k == LOCATION { 1 } else { 2 }, "absent fields are not written");
        reach("written");
    }
    // tempos and marks; params: attribute of a tempo (0 to 3) or mark (4 to 8), characters
    fn h_inner() {
        let (k, n) = (param(0) as usize, param(1) as usize);
        let real = k == 0 || k == 1 || k == 6 || k == 7;
        let (s, v) = if real { value(23, n) } else if k == 2 || k == 4 { value(0, n) } else { value(16, n) };
        let (mut t, mut m) = (Tempo { inizio: 1.5, bpm: 2.5, metro: String::from("4/4"), battito: 3 }, PositionMark { name: String::from("m"), mark_type: 4, start: 5.5, end: None, num: 6 });
        match &v {
            Value::Text(x) => if k == 2 { t.metro = x.clone() } else { m.name = x.clone() },
            Value::Whole(x) => match k { 3 => t.battito = *x as i32, 5 => m.mark_type = *x as i32, _ => m.num = *x as i32 },
            Value::Real(x) => match k { 0 => t.inizio = *x, 1 => t.bpm = *x, 6 => m.start = *x, _ => m.end = Some(*x) },
            Value::Absent => {}
        }
        let mut tag = attr("TrackID", "1") + &attr("Location", "l") + "><TEMPO";
        for (i, (a, x)) in [("Inizio", "1.5"), ("Bpm", "2.5"), ("Metro", "4/4"), ("Battito", "3")].into_iter().enumerate() { tag.push_str(&attr(a, if i == k { &s } else { x })); }
        tag.push_str("/><POSITION_MARK");
        for (i, (a, x)) in [("Name", "m"), ("Type", "4"), ("Start", "5.5"), ("End", ""), ("Num", "6")].into_iter().enumerate() { if i + 4 == k || i != 3 { tag.push_str(&attr(a, if i + 4 == k { &s } else { x })); } }
        let text = around(&["<TRACK", &tag, "/></TRACK>"].concat(), "");
        let mut want = track();
        want.tempos.push(t);
        want.position_marks.push(m);
        let want = empty(vec![want], vec![]);
        match parsed(&text) {
            Some(d) => { check(d == want, "tempos and marks are read under their names"); reach("inner"); }
            None => check(false, "tempos and marks can be read"),
        }
        let Ok(all) = quick_xml::se::to_string(&want) else { check(false, "every document can be written (inner)"); return };
        let padded = matches!(v, Value::Whole(_)) && s.len() > 1 && s.starts_with('0');
        if !real && !padded {
            let a = |i: usize, name: &str, x: &str| attr(name, if i == k { &s } else { x });
            let tempo = element(&all, "<TEMPO", &[a(0, "Inizio", "1.5"), a(1, "Bpm", "2.5"), a(2, "Metro", "4/4"), a(3, "Battito", "3")]);
            let mark = element(&all, "<POSITION_MARK", &[a(4, "Name", "m"), a(5, "Type", "4"), a(6, "Start", "5.5"), a(8, "Num", "6")]);
            check(tempo && mark, "tempos and marks are written under their names");
        }
    }
    // names of the document and of its nodes; params: the arbitrary one (7: the numbers), characters
    fn h_outer() {
        let (k, n) = (param(0) as usize, param(1) as usize);
        let mut w: Vec<String> = ["1.0.0", "product", "6.0", "company", "ROOT", "list", "0"].iter().map(|x| String::from(*x)).collect();
        let (mut e, mut entries, mut key, mut number) = (String::from("23"), 23, String::from("45"), 45);
        if k < 7 { w[k] = plain(n, "text"); } else { (e, entries) = digits(n, "entries"); (key, number) = digits(n, "key"); }
        let order = choose(6, "order") as usize;
        let parts = [
            ["<PRODUCT", &attr("Name", &w[1]), &attr("Version", &w[2]), &attr("Company", &w[3]), "/>"].concat(),
            ["<COLLECTION", &attr("Entries", &e), "/>"].concat(),
            ["<PLAYLISTS><NODE Type=\"0\"", &attr("Name", &w[4]), " Count=\"1\"><NODE", &attr("Name", &w[5]), " Type=\"1\"", &attr("KeyType", &w[6]), " Entries=\"1\"><TRACK", &attr("Key", &key), "/></NODE></NODE></PLAYLISTS>"].concat(),
        ];
        let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order];
        let text = ["<DJ_PLAYLISTS", &attr("Version", &w[0]), ">", &parts[o[0]], &parts[o[1]], &parts[o[2]], "</DJ_PLAYLISTS>"].concat();
        let want = Document {
            version: w[0].clone(),
            product: Product { name: w[1].clone(), version: w[2].clone(), company: w[3].clone() },
            collection: Collection { entries: entries as i32, track: vec![] },
            playlists: Playlists { node: PlaylistFolderNode { name: w[4].clone(), nodes: vec![PlaylistGenericNode::Playlist(PlaylistPlaylistNode { name: w[5].clone(), keytype: w[6].clone(), tracks: vec![PlaylistTrack { key: number as i32 }] })] } },
        };
        match parsed(&text) {
            Some(d) => { check(d == want, "a document is read under the documented names"); reach("outer"); }
            None => check(false, "a document can be read"),
        }
        let Ok(all) = quick_xml::se::to_string(&want) else { check(false, "every document can be written (outer)"); return };
        let mut ok = element(&all, "<DJ_PLAYLISTS", &[attr("Version", &w[0])]);
        ok &= element(&all, "<PRODUCT", &[attr("Name", &w[1]), attr("Version", &w[2]), attr("Company", &w[3])]);
        if !(k == 7 && n > 1 && e.starts_with('0')) { ok &= element(&all, "<COLLECTION", &[attr("Entries", &e)]); }
        check(ok, "a document is written under the documented names");
        let Some(at) = all.rfind("<NODE") else { check(false, "nodes are written"); return };
        let mut ok = element(&all[..at], "<NODE", &[attr("Name", &w[4]), attr("Count", "1")]) || element(&all[..at], "<NODE", &[attr("Name", &w[4]), attr("Count", "1"), attr("Type", "0")]);
        ok &= element(&all[at..], "<NODE", &[attr("Name", &w[5]), attr("Type", "1"), attr("KeyType", &w[6]), attr("Entries", "1")]);
        if !(k == 7 && n > 1 && key.starts_with('0')) { ok &= element(&all[at..], "<TRACK", &[attr("Key", &key)]); }
        check(ok, "nodes are written under the documented names");
    }
    // required attributes; params: which one is missing (none: 16)
    fn h_missing() {
        let k = param(0) as usize;
        let a = |i: usize, name: &str, v: &str| if i == k { String::new() } else { attr(name, v) };
        let s = [
            "<DJ_PLAYLISTS", &a(0, "Version", "1"), "><PRODUCT", &a(1, "Name", "p"), &a(2, "Version", "1"), &a(3, "Company", "c"), "/><COLLECTION", &a(4, "Entries", "1"), "><TRACK", &a(5, "TrackID", "1"), &a(6, "Location", "l"),
            "><TEMPO", &a(7, "Inizio", "1"), &a(8, "Bpm", "2"), &a(9, "Metro", "4/4"), &a(10, "Battito", "1"), "/><POSITION_MARK", &a(11, "Name", "m"), &a(12, "Type", "0"), &a(13, "Start", "1"), &a(14, "Num", "0"),
            "/></TRACK></COLLECTION><PLAYLISTS><NODE Type=\"0\" Count=\"0\"", &a(15, "Name", "ROOT"), "></NODE></PLAYLISTS></DJ_PLAYLISTS>",
        ].concat();
        check(parsed(&s).is_some() == (k == 16), "a document is read exactly if nothing required is missing");
        reach("missing");
    }
    // layout: spaces, comments, quotes, empty elements, entities; params: what
    fn h_layout() {
        let s = plain(1, "text");
        let mut want = track();
        want.name = Some(s.clone());
        want.location = String::from("a&<b>");
        let q = if param(0) == 1 { ["\"", "'"][choose(2, "quote") as usize] } else { "\"" };
        let g = if param(0) == 0 { gap() } else { " " };
        let mut b = ["", "", ""];
        if param(0) == 2 { for x in &mut b { *x = between(); } }
        let end = if param(0) == 1 { ["/>", " />", "></TRACK>", ">\n</TRACK>"][choose(4, "end") as usize] } else { "/>" };
        let and = if param(0) == 3 { ["&amp;", "&#38;", "&#x26;"][choose(3, "entity") as usize] } else { "&amp;" };
        let less = if param(0) == 3 { ["&lt;", "&#60;", "&#x3C;"][choose(3, "entity") as usize] } else { "&lt;" };
        let track = [b[0], "<TRACK", g, "TrackID=", q, "1", q, g, "Name=", q, &s, q, g, "Location=", q, "a", and, less, "b&gt;", q, if param(0) == 0 { g } else { "" }, end, b[1]].concat();
        match parsed(&around(&track, b[2])) {
            Some(d) => { check(d == empty(vec![want], vec![]), "the layout of a document does not matter"); reach("layout"); }
            None => check(false, "a document of any layout can be read"),
        }
    }
}
