#![no_main]
//! C01: text survives construct, write, read and decode.
use harness::*;
use rekordcrate::pdb::string::DeviceSQLString;

/// UTF-16 text of exactly seven units whose bytes are 0x03, twelve non-zero ASCII bytes, 0x00 is
/// byte for byte what an ISRC of the same twelve characters looks like.
fn looks_like_isrc(t: &str) -> bool {
    let u: Vec<u16> = t.encode_utf16().collect();
    if u.len() != 7 || t.is_ascii() { return false; }
    let mut r = u[0] & 0xff == 3;
    let mut b = Vec::new();
    for x in &u { b.push(*x as u8); b.push((*x >> 8) as u8); }
    for i in 1..13 { r &= (b[i] != 0) & (b[i] < 0x80); }
    r & (b[13] == 0)
}
fn roundtrip(t: &str) {
    let s = DeviceSQLString::new(t);
    check(s.is_ok(), "text within the length limit is accepted");
    let s = match s { Ok(s) => s, Err(_) => return };
    let d = s.clone().into_string();
    check(d.is_ok(), "constructed string turns back into text");
    if let Ok(d) = d { check(same(d.as_bytes(), t.as_bytes()), "text returned unchanged directly"); }
    survive(s, t);
}
fn survive(s: DeviceSQLString, t: &str) {
    let w = wr(&s);
    check(w.is_ok(), "constructed string can be written");
    let w = match w { Ok(w) => w, Err(_) => return };
    observe(1, &w);
    let mut padded = w.clone();
    padded.extend_from_slice(&[0xAA, 0x55, 0x33]);
    let r = rd::<DeviceSQLString>(&padded);
    check(r.is_ok(), "written string can be read");
    let (r, n) = match r { Ok(r) => r, Err(_) => return };
    check(n == w.len(), "reading consumes exactly the written bytes");
    check(r == s, "read string equals the written one");
    let d = r.into_string();
    check(d.is_ok(), "read string turns into text");
    if let Ok(d) = d { check(same(d.as_bytes(), t.as_bytes()), "text unchanged after write and read"); }
    reach("done");
}
harnesses! {
    fn h_chars() {
        let t = text(param(0) as usize, 4, "char");
        assume(!looks_like_isrc(&t));
        roundtrip(&t);
    }
    fn h_ascii() {
        let t = ascii(param(0) as usize, "ascii");
        roundtrip(&t);
    }
    // one non-ASCII character of the given class at position `param 1` of an ASCII text
    fn h_mixed() {
        let (n, at, class) = (param(0) as usize, param(1) as usize, param(2));
        let mut v = Vec::new();
        for i in 0..n { if i == at { push_char(&mut v, class, "wide"); } else { let b = u8v("ascii"); assume(b < 0x80); v.push(b); } }
        let t = unsafe { String::from_utf8_unchecked(v) };
        assume(!looks_like_isrc(&t));
        roundtrip(&t);
    }
    // texts at the limits of the length field: param 0 ASCII characters, then `param 2` characters of class `param 1`
    fn h_limit() {
        let mut v = long_ascii(param(0) as usize, 6, "ascii").into_bytes();
        for _ in 0..param(2) { push_char(&mut v, param(1), "wide"); }
        let t = unsafe { String::from_utf8_unchecked(v) };
        match DeviceSQLString::new(&t) {
            Ok(s) => {
                let d = s.clone().into_string();
                check(d.is_ok(), "constructed string turns back into text (limit)");
                if let Ok(d) = d { check(same(d.as_bytes(), t.as_bytes()), "text returned unchanged directly (limit)"); }
                survive(s, &t);
            }
            Err(_) => reach("opt:too long"),
        }
    }
    fn h_isrc() {
        let t = ascii(12, "isrc");
        let mut nz = true;
        for b in t.bytes() { nz &= b != 0; }
        assume(nz);
        let s = DeviceSQLString::new_isrc(t.clone());
        check(s.is_ok(), "12 ASCII characters are a valid ISRC");
        let s = match s { Ok(s) => s, Err(_) => return };
        let d = s.clone().into_string();
        check(d.is_ok(), "constructed ISRC turns back into text");
        if let Ok(d) = d { check(same(d.as_bytes(), t.as_bytes()), "ISRC text returned unchanged directly"); }
        survive(s, &t);
    }
    fn h_isrc_empty() {
        let s = DeviceSQLString::new_isrc(String::new());
        check(s.is_ok(), "empty ISRC accepted");
        if let Ok(s) = s { survive(s, ""); }
        check(DeviceSQLString::empty() == DeviceSQLString::default(), "empty is the default");
        survive(DeviceSQLString::empty(), "");
        let p = "abc".parse::<DeviceSQLString>();
        check(p == DeviceSQLString::new("abc"), "parse is new");
        reach("empty");
    }
    // the texts excluded above
    fn h_ambiguous() {
        let mut v = Vec::new();
        for _ in 0..6 { push_char(&mut v, 3, "wide"); }
        push_char(&mut v, 1, "ascii");
        let t = unsafe { String::from_utf8_unchecked(v) };
        assume(looks_like_isrc(&t));
        roundtrip(&t);
    }
}
