#![no_main]
//! C02: encoding choice, length fields, over-long rejection.
use harness::*;
use rekordcrate::pdb::string::DeviceSQLString;

fn expected(t: &str) -> Vec<u8> {
    let n = t.len();
    let mut v = Vec::new();
    if t.is_ascii() {
        if n <= 126 { v.push((((n + 1) << 1) | 1) as u8); }
        else { let l = (n + 4) as u16; v.extend_from_slice(&[0x40, l as u8, (l >> 8) as u8, 0]); }
        v.extend_from_slice(t.as_bytes());
    } else {
        let mut u = Vec::new();
        for x in t.encode_utf16() { u.push(x as u8); u.push((x >> 8) as u8); }
        let l = (u.len() + 4) as u16;
        v.extend_from_slice(&[0x90, l as u8, (l >> 8) as u8, 0]);
        v.extend_from_slice(&u);
    }
    v
}
fn written_form(t: &str) {
    let s = DeviceSQLString::new(t);
    check(s.is_ok(), "text within the limit accepted");
    if let Ok(s) = s {
        let w = wr(&s);
        check(w.is_ok(), "accepted text can be written");
        if let Ok(w) = w { observe(1, &w); check(same(&w, &expected(t)), "written form is the documented one"); }
    }
    reach("written");
}
harnesses! {
    fn h_chars() { written_form(&text(param(0) as usize, 4, "char")); }
    fn h_ascii() { written_form(&ascii(param(0) as usize, "ascii")); }
    fn h_mixed() {
        let (n, at, class) = (param(0) as usize, param(1) as usize, param(2));
        let mut v = Vec::new();
        for i in 0..n { if i == at { push_char(&mut v, class, "wide"); } else { let b = u8v("ascii"); assume(b < 0x80); v.push(b); } }
        written_form(unsafe { std::str::from_utf8_unchecked(&v) });
    }
    // around the limits: n ASCII characters plus k of a wider class
    fn h_limit() {
        let n = param(0) as usize;
        let mut v = long_ascii(n, 5, "ascii").into_bytes();
        for _ in 0..param(2) { push_char(&mut v, param(1), "wide"); }
        let t = unsafe { std::str::from_utf8_unchecked(&v) };
        let body = if t.is_ascii() { t.len() } else { 2 * t.encode_utf16().count() };
        match DeviceSQLString::new(t) {
            Ok(s) => {
                check(body + 4 <= 65535, "text that fits no length field is rejected");
                let w = wr(&s);
                check(w.is_ok(), "accepted long text can be written");
                if let Ok(w) = w { check(same(&w, &expected(t)), "written form is the documented one (limit)"); }
                reach("accepted at the limit");
            }
            Err(_) => { check(t.len() > 32767 || body + 4 > 65535, "text within the documented limit accepted"); reach("rejected at the limit"); }
        }
    }
    fn h_isrc() {
        let n = param(0) as usize;
        let t = ascii(n, "isrc");
        let mut nz = true;
        for b in t.bytes() { nz &= b != 0; }
        assume(nz);
        let r = DeviceSQLString::new_isrc(t.clone());
        check(r.is_ok() == (n == 0 || n == 12), "ISRC accepted exactly when empty or 12 ASCII characters");
        if let Ok(s) = r {
            let w = wr(&s);
            check(w.is_ok(), "ISRC can be written");
            if let Ok(w) = w {
                let mut e = Vec::new();
                if n == 0 { e.push(3); } else { e.extend_from_slice(&[0x90, 18, 0, 0, 3]); e.extend_from_slice(t.as_bytes()); e.push(0); }
                check(same(&w, &e), "ISRC written in its documented form");
            }
        }
    }
    // texts with a non-ASCII character are never an ISRC, whatever their byte or character count
    fn h_isrc_wide() {
        let (n, class) = (param(0) as usize, param(1));
        let mut v = Vec::new();
        for i in 0..n { if i == n / 2 { push_char(&mut v, class, "wide"); } else { let b = u8v("ascii"); assume((b < 0x80) & (b != 0)); v.push(b); } }
        let t = unsafe { String::from_utf8_unchecked(v) };
        check(DeviceSQLString::new_isrc(t).is_err(), "non-ASCII text is no ISRC");
    }
}
