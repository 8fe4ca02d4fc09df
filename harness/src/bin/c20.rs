#![no_main]
//! C20: malformed analysis files never panic the reader.
use harness::anlz::*;
use harness::*;
use rekordcrate::anlz::*;

fn section_of(b: &[u8]) {
    match rd_be::<Section>(b) { Ok((s, n)) => { check(n <= b.len(), "no more is consumed than there is"); let _ = wr_be(&s); reach("opt:read"); } Err(_) => reach("opt:rejected") }
}
harnesses! {
    fn h_file() {
        // any bytes
        let b = vec(param(0) as usize, "bytes");
        match rd_be::<ANLZ>(&b) { Ok((a, n)) => { check(n <= b.len(), "no more is consumed than there is"); let _ = wr_be(&a); reach("opt:read"); } Err(_) => reach("rejected") }
    }
    fn h_sections() {
        // a file header of any sizes before a section header of any tag and sizes
        let (head, n) = (param(0) as usize, param(1) as usize);
        let mut b = b"PMAI".to_vec();
        raw(&mut b, 8 + head, "head");
        assume(be32(&b, 4) as usize == 12 + head);
        raw(&mut b, n, "section");
        match rd_be::<ANLZ>(&b) { Ok((a, n)) => { check(n <= b.len(), "no more is consumed than there is"); let _ = wr_be(&a); reach("opt:read"); } Err(_) => reach("rejected") }
    }
    fn h_section() {
        // any sizes and any content under each tag
        let (k, n) = (param(0) as usize, param(1) as usize);
        let mut b = ALL[k].to_vec();
        raw(&mut b, 8 + n, "content");
        section_of(&b);
    }
    fn h_damage() {
        // a well-formed section with any four bytes replaced, cut anywhere
        let (k, n, p) = (param(0) as usize, param(1) as usize, param(2) as usize);
        let mut b = if k == 2 { fixed(k, n, 2, 3) } else { section(k, n, 2, 3) };
        let x = bytes::<4>("edit");
        for i in 0..4 { if p + i < b.len() { b[p + i] = x[i]; } }
        let cut = choose(9, "cut") as usize;
        b.truncate(b.len().saturating_sub(cut * cut));
        section_of(&b);
    }
    fn h_show() {
        // what was read can be shown
        let (k, n) = (param(0) as usize, param(1) as usize);
        let b = if k == 2 { section(k, n, 1, 1) } else { section(k, n, 0, 0) };
        if let Ok((s, _)) = rd_be::<Section>(&b) { let t = format!("{:?}", s.content); check(!t.is_empty(), "a section can be shown"); reach("shown"); }
    }
}
