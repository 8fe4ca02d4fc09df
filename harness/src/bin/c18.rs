#![no_main]
//! C18: song structure encryption.
use harness::anlz::*;
use harness::*;
use rekordcrate::anlz::*;

/// debug form of a song structure with its form stripped
fn forms(b: &[u8]) -> Option<(bool, String)> {
    let (s, n) = rd_be::<Section>(b).ok()?;
    check(n == b.len(), "the section is consumed exactly");
    check(match wr_be(&s) { Ok(w) => same(&w, b), Err(_) => false }, "the form found on reading is kept on writing");
    let Content::SongStructure(c) = &s.content else { check(false, "a song structure is read as one"); return None };
    let d = format!("{:?}", c);
    for (f, p) in [(true, "SongStructure { is_encrypted: true, data: "), (false, "SongStructure { is_encrypted: false, data: ")] {
        if d.starts_with(p) { return Some((f, d[p.len()..].to_string())); }
    }
    check(false, "the form is shown");
    None
}
/// plain section of n phrases with one arbitrary byte at `p` of the data and fixed others
fn plain(n: usize, p: usize) -> Vec<u8> {
    let mut v = KINDS[12].to_vec();
    b32(&mut v, 32); b32(&mut v, 32 + 24 * n as u32); b32(&mut v, 24); b16(&mut v, n as u16);
    for i in 0..14 + 24 * n { v.push(if i == 0 { 0 } else if i == 1 { 1 + (n % 3) as u8 } else if i == 12 { (n % 9) as u8 } else { (i % 7) as u8 }); }
    if p != usize::MAX {
        let x = u8v("byte");
        if p == 0 { assume(x == 0); } else if p == 1 { assume(x.wrapping_sub(1) < 3); } else if p == 12 { assume(x < 9); }
        v[18 + p] = x;
    }
    v
}
fn moods(m: u8) -> &'static str { match m { 1 => "High", 2 => "Mid", _ => "Low" } }
fn banks(m: u8) -> &'static str { ["Default", "Cool", "Natural", "Hot", "Subtle", "Warm", "Vivid", "Club1", "Club2"][m as usize] }
const FIELDS: [(&str, usize, usize); 17] = [("index: ", 0, 2), ("beat: ", 2, 2), ("kind: ", 4, 2), ("unknown1: ", 6, 1), ("k1: ", 7, 1), ("unknown2: ", 8, 1), ("k2: ", 9, 1), ("unknown3: ", 10, 1), ("b: ", 11, 1), ("beat2: ", 12, 2), ("beat3: ", 14, 2), ("beat4: ", 16, 2), ("unknown4: ", 18, 1), ("k3: ", 19, 1), ("unknown5: ", 20, 1), ("fill: ", 21, 1), ("beat_fill: ", 22, 2)];

harnesses! {
    fn h_detect() {
        // any two mood bytes: plain, masked or neither
        let n = param(0) as usize;
        let mut b = plain(n, usize::MAX);
        let m = bytes::<2>("mood");
        let masked = param(1) == 1;
        if masked { mask(&mut b[18..], n); }
        b[18..20].copy_from_slice(&m);
        let k = [((KEY[0] as usize + n) % 256) as u8, ((KEY[1] as usize + n) % 256) as u8];
        let is_plain = m[0] == 0 && m[1] >= 1 && m[1] <= 3;
        let d = [m[0] ^ k[0], m[1] ^ k[1]];
        let is_masked = d[0] == 0 && d[1] >= 1 && d[1] <= 3;
        check(!(is_plain && is_masked), "the forms cannot be confused");
        match rd_be::<Section>(&b) {
            Ok((s, _)) => {
                let t = format!("{:?}", s);
                check(is_plain || is_masked, "a mood that is valid in neither form is an error");
                check(t.contains("is_encrypted: true") == is_masked, "the form is detected from the mood");
                let v = if is_masked { d[1] } else { m[1] };
                check(t.contains(match v { 1 => "mood: High,", 2 => "mood: Mid,", _ => "mood: Low," }), "the mood is unmasked");
                reach("opt:read");
                if is_plain == masked { reach("opt:mixed"); }
            }
            Err(_) => {
                check(!(masked && is_masked) && !(!masked && is_plain), "a valid song structure is read in either form");
                reach("error");
            }
        }
    }
    fn h_forms() {
        // both forms of the same song structure read as the same data; one byte is arbitrary
        let (n, p) = (param(0) as usize, param(1) as usize);
        let a = plain(n, p);
        let mut b = a.clone();
        mask(&mut b[18..], n);
        let (x, y) = (forms(&a), forms(&b));
        check(x.is_some() && y.is_some(), "both forms are read");
        let (Some((f, x)), Some((g, y))) = (x, y) else { return };
        check(!f, "plain data is not taken for masked data");
        check(g, "masked data is not taken for plain data");
        check(x.len() == y.len() && same(x.as_bytes(), y.as_bytes()), "both forms hold the same data");
        let d = &a[18..];
        if p < 14 {
            check(shows_word(&x, "mood: ", moods(d[1])) && shows_word(&x, "bank: ", banks(d[12])), "mood and bank are read from their places");
            check(shows(&x, "end_beat: ", &be16(d, 8).to_string()), "the end beat is read from its place");
            reach("head");
        } else {
            let i = (p - 14) / 24;
            let mut s = &x[..];
            for _ in 0..=i { match s.find("Phrase {") { Some(q) => s = &s[q + 7..], None => { check(false, "every phrase is shown"); return } } }
            for (label, q, w) in FIELDS {
                if q != (p - 14) % 24 && !(w == 2 && q + 1 == (p - 14) % 24) { continue; }
                let q = 14 + 24 * i + q;
                let v = if w == 1 { d[q] as u16 } else { be16(d, q) };
                let l = if q == 14 + 24 * i { label.to_string() } else { format!(", {}", label) };
                check(shows(s, &l, &v.to_string()), "phrase fields are read from their places");
            }
            reach("opt:phrase");
        }
    }
    fn h_bulk() {
        // arbitrary phrases, masked: written unchanged, equal after another round
        let n = param(0) as usize;
        let mut b = plain(n, usize::MAX);
        let from = 32 + 24 * (param(1) as usize);
        for i in from..b.len() { b[i] = u8v("phrase"); }
        if param(2) == 1 { mask(&mut b[18..], n); }
        match rd_be::<Section>(&b) {
            Ok((s, used)) => {
                check(used == b.len(), "the section is consumed exactly");
                let w = match wr_be(&s) { Ok(w) => w, Err(_) => { check(false, "a song structure can be written"); return } };
                check(same(&w, &b), "a song structure is written unchanged");
                check(match rd_be::<Section>(&w) { Ok((t, _)) => t == s, Err(_) => false }, "the written song structure is equal");
                reach("bulk");
            }
            Err(_) => check(false, "a well-formed song structure is read"),
        }
    }
    fn h_count() {
        // any entry count over too little data: never a panic
        let mut b = plain(param(0) as usize, usize::MAX);
        let m = bytes::<4>("edit");
        b[16..20].copy_from_slice(&m);
        let t = u32v("total");
        put32(&mut b, 8, t);
        let n = be16(&b, 16);
        match rd_be::<Section>(&b) {
            Ok((s, _)) => { check(n as u64 <= param(0) && t as u64 == 32 + 24 * n as u64, "only a count that matches the size is accepted"); let _ = wr_be(&s); reach("accepted"); }
            Err(_) => reach("rejected"),
        }
    }
}
fn shows_word(s: &str, label: &str, w: &str) -> bool {
    match s.find(label) { Some(p) => s[p + label.len()..].starts_with(w) && !s.as_bytes()[p + label.len() + w.len()].is_ascii_alphanumeric(), None => false }
}
