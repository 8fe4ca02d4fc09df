#![no_main]
//! C03: arbitrary bytes decode losslessly or fail cleanly.
use harness::*;
use rekordcrate::pdb::string::DeviceSQLString;
use std::fmt::Write;

struct Sink(usize);
impl Write for Sink { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len(); Ok(()) } }

fn lossless(b: &[u8]) -> Option<DeviceSQLString> {
    match rd::<DeviceSQLString>(b) {
        Ok((s, n)) => {
            let w = wr(&s);
            check(w.is_ok(), "a decoded string can be written");
            if let Ok(w) = w { observe(1, &w); check(w.len() == n && same(&w, &b[..n]), "writing reproduces the consumed bytes"); }
            reach("decoded");
            Some(s)
        }
        Err(_) => { reach("rejected"); None }
    }
}
fn show(s: DeviceSQLString) {
    let mut k = Sink(0);
    check(write!(k, "{}", s).is_ok(), "display succeeds");
    let mut k = Sink(0);
    check(write!(k, "{:?}", s).is_ok(), "debug succeeds");
    match s.into_string() { Ok(t) => { observe(2, t.as_bytes()); reach("text"); } Err(_) => reach("no text") }
}
harnesses! {
    // any bytes, any length up to the buffer
    fn h_any() {
        let b = vec(param(0) as usize, "bytes");
        if let Some(s) = lossless(&b) { let _ = s.into_string(); }
    }
    fn h_show() {
        let b = vec(param(0) as usize, "bytes");
        if let Some(s) = lossless(&b) { show(s); }
    }
    // short form announcing exactly the content that follows
    fn h_short() {
        let n = param(0) as usize;
        let mut b = vec(n + 1, "bytes");
        assume(b[0] == (((n + 1) << 1) | 1) as u8);
        b[0] = (((n + 1) << 1) | 1) as u8;
        if n > 8 { assume(b[1..].iter().fold(true, |a, x| a & (*x < 0x80))); }
        let s = lossless(&b);
        check(s.is_some(), "complete short string decodes");
        if let Some(s) = s { let a = b[1..].iter().fold(true, |a, x| a & (*x < 0x80)); let t = s.into_string(); if a { check(t.is_ok() && same(t.unwrap().as_bytes(), &b[1..]), "short ASCII content is the text"); } }
    }
    // long form with a body of n arbitrary bytes
    fn h_long() {
        let n = param(0) as usize;
        let l = (n + 4) as u16;
        let kind = [0x40u8, 0x90][param(1) as usize];
        let mut b = std::vec![kind, l as u8, (l >> 8) as u8, 0];
        let c = vec(n, "body");
        b.extend_from_slice(&c);
        let s = lossless(&b);
        check(s.is_some() || (kind == 0x90 && n % 2 == 1), "complete long string decodes");
        if let Some(s) = s {
            if kind == 0x40 { let a = c.iter().fold(true, |a, x| a & (*x < 0x80)); if a { let t = s.into_string(); check(t.is_ok() && same(t.unwrap().as_bytes(), &c), "long ASCII content is the text"); } }
            else if param(2) == 1 { show(s); }
        }
    }
    // large declared lengths over a short buffer, and over a long one
    fn h_len() {
        let mut b = std::vec![0u8; 4 + param(0) as usize];
        let h: [u8; 4] = bytes("header");
        b[..4].copy_from_slice(&h);
        for i in 4..b.len() { b[i] = b'x'; }
        lossless(&b);
    }
}
