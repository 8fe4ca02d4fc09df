#![no_main]
//! C09: reading and rewriting a page.
use binrw::{io::{Cursor, Seek, SeekFrom}, BinRead, BinWrite};
use harness::pages::{self, *};
use harness::*;
use rekordcrate::pdb::*;

fn write(page: &Page, size: usize, at: usize, over: u8) -> Result<Vec<u8>, binrw::Error> {
    let mut c = Cursor::new(vec![over; at + size]);
    let _ = c.seek(SeekFrom::Start(at as u64));
    page.write_le_args(&mut c, (size as u32,))?;
    check(c.position() as usize == at + size, "writing stops at the page's end");
    Ok(c.into_inner())
}
/// every byte of the page that carries information is reproduced; `carries` marks them
fn rewrite(p: &Image, carries: &[bool]) -> Option<Page> {
    let page = match p.read() { Ok(x) => x, Err(_) => { check(false, "a consistent page is read"); return None; } };
    let w = write(&page, p.size, 0, 0);
    check(w.is_ok(), "a page that was read can be written");
    let w = match w { Ok(w) => w, Err(_) => return None };
    observe(1, &w);
    check(w.len() == p.size, "the written image is one page long");
    if w.len() != p.size { return None; }
    let mut d = 0u8;
    for i in 0..p.size { if carries[i] { d |= w[i] ^ p.b[i]; } else { d |= w[i]; } }
    check(d == 0, "header, rows, offsets and flags are at the same bytes, the rest stays untouched");
    match pages::read(&w, p.size) {
        Ok(r) => check(r == page, "the written page reads back equal"),
        Err(_) => check(false, "the written page can be read"),
    }
    // written in the middle of a file
    let w2 = write(&page, p.size, 8, 0);
    if let Ok(w2) = w2 { check(w2.len() == p.size + 8 && same(&w2[8..], &w) && same(&w2[..8], &[0; 8]), "a page is written at the stream's position"); } else { check(false, "page written at a position"); }
    reach("rewritten");
    Some(page)
}
/// mark the offsets of a group from its last present row on
fn group_bytes(c: &mut [bool], size: usize, g: usize, flags: u16) {
    let end = size - 36 * g;
    for i in 0..4 { c[end - 1 - i] = true; }
    for i in 0..16 { if flags >> i != 0 { c[end - 4 - 2 * (i + 1)] = true; c[end - 3 - 2 * (i + 1)] = true; } }
}

harnesses! {
    // every header field arbitrary, no rows
    fn h_header() {
        let ps = param(0) as usize;
        let mut p = Image::new(ps, 0);
        fill(&mut p.b[4..8], "index");
        fill(&mut p.b[12..24], "links");
        fill(&mut p.b[27..40], "header");
        assume(p.b[27] & 0x40 == 0);
        p.counts(0, 0);
        let mut c = vec![false; ps];
        for i in 0..40 { c[i] = true; }
        let page = match rewrite(&p, &c) { Some(p) => p, None => return };
        let h = &page.header;
        let le = |a: usize, n: usize| { let mut r = 0u64; for i in 0..n { r |= (p.b[a + i] as u64) << (8 * i); } r };
        check((h.unknown1 as u64 == le(16, 4)) & (h.unknown2 as u64 == le(20, 4)) & (h.free_size as u64 == le(28, 2)) & (h.used_size as u64 == le(30, 2)), "header fields at their documented offsets");
        check((h.page_index.offset(1) == le(4, 4)) & (h.next_page.offset(1) == le(12, 4)), "page links at their documented offsets");
        if let Some(d) = page.content.as_data() { check((d.header.unknown5 as u64 == le(32, 2)) & (d.header.unknown_not_num_rows_large as u64 == le(34, 2)) & (d.header.unknown6 as u64 == le(36, 2)) & (d.header.unknown7 as u64 == le(38, 2)), "data header fields at their documented offsets"); }
    }
    // params: page size, rows stored, arbitrary presence bits (first, number), gap between rows
    fn h_rows() {
        let (ps, n, lo, k, gap) = (param(0) as usize, param(1) as usize, param(2), param(3), param(4) as usize);
        let mut p = Image::new(ps, 0x24);
        fill(&mut p.b[28..40], "header");
        let f = u16v("flags");
        assume(f & !((((1u32 << k) - 1) << lo) as u16) == 0);
        let f = fork(f as u64) as u16;
        let mut c = vec![false; ps];
        for i in 0..40 { c[i] = true; }
        let mut valid = 0;
        for i in 0..n {
            let o = i * (ROW + gap);
            p.offset(0, i, o);
            if f >> i & 1 == 1 {
                valid += 1;
                fill(&mut p.b[40 + o..40 + o + ROW], "row");
                for b in 40 + o..40 + o + ROW { c[b] = true; }
            }
        }
        p.flags(0, f);
        p.unknown(0, u16v("unknown"));
        p.counts(n as u16, valid);
        group_bytes(&mut c, ps, 0, f);
        for i in 0..n { if f >> i == 0 { p.offset(0, i, 0); } }
        rewrite(&p, &c);
    }
    // several groups; params: page size, rows, arbitrary bits per group
    fn h_groups() {
        let (ps, n, k) = (param(0) as usize, param(1) as usize, param(2) as usize);
        let mut p = Image::new(ps, 0x24);
        let mut c = vec![false; ps];
        for i in 0..40 { c[i] = true; }
        let mut valid = 0;
        for g in 0..n.div_ceil(16) {
            let used = if 16 * (g + 1) <= n { 16 } else { n % 16 };
            let mut mask = 0u16;
            for i in 0..k.min(used) { mask |= 1 << ((i * 7 + 3 * g) % used); }
            let f = u16v("flags");
            assume(f & !mask == 0);
            let f = fork(f as u64) as u16;
            for i in 0..used {
                let o = (16 * g + i) * ROW;
                if f >> i != 0 { p.offset(g, i, o); }
                if f >> i & 1 == 1 {
                    valid += 1;
                    fill(&mut p.b[40 + o..40 + o + ROW], "row");
                    for b in 40 + o..40 + o + ROW { c[b] = true; }
                }
            }
            p.flags(g, f);
            p.unknown(g, u16v("unknown"));
            group_bytes(&mut c, ps, g, f);
        }
        p.counts(n as u16, valid);
        rewrite(&p, &c);
    }
    // two rows at arbitrary distinct offsets of a page
    fn h_places() {
        let ps = param(0) as usize;
        let mut p = Image::new(ps, 0x34);
        let room = ps - 40 - 8 - ROW;
        let a = choose(room as u64 + 1, "offset") as usize;
        let b = choose(room as u64 + 1, "offset") as usize;
        assume(a >= b + ROW || b >= a + ROW);
        let mut c = vec![false; ps];
        for i in 0..40 { c[i] = true; }
        for o in [a, b] { fill(&mut p.b[40 + o..40 + o + ROW], "row"); for i in 0..ROW { c[40 + o + i] = true; } }
        p.offset(0, 0, a);
        p.offset(0, 1, b);
        p.flags(0, 3);
        p.counts(2, 2);
        group_bytes(&mut c, ps, 0, 3);
        rewrite(&p, &c);
    }
    // a page of named rows: the strings of all kinds survive in place; params: wide, string kind, length
    fn h_names() {
        let ps = 0x100;
        let wide = param(0);
        let mut p = Image::new(ps, 0x24);
        p.b[8] = 2;
        let mut c = vec![false; ps];
        for i in 0..40 { c[i] = true; }
        for r in 0..2 {
            let o = 64 * r;
            p.offset(0, r, o);
            let at = 40 + o;
            fill(&mut p.b[at..at + 8], "row");
            assume((p.b[at] & 4 != 0) == (wide == 1));
            let s = sql(param(1), param(2) as usize, "name");
            let t = 8 + 2 * (1 + wide as usize) + 2 * r;
            p.b[at + 8] = 3;
            if wide == 1 { p.b[at + 10] = t as u8; } else { p.b[at + 9] = t as u8; }
            for i in 0..8 + 2 * (1 + wide as usize) { c[at + i] = true; }
            p.b[at + t..at + t + s.len()].copy_from_slice(&s);
            for i in 0..s.len() { c[at + t + i] = true; }
        }
        p.flags(0, 3);
        p.counts(2, 2);
        group_bytes(&mut c, ps, 0, 3);
        rewrite(&p, &c);
    }
    // arbitrary page type numbers of an extended database and unknown types without rows
    fn h_types() {
        let ps = 0x60;
        let mut p = Image::new(ps, 0x24);
        fill(&mut p.b[8..12], "type");
        let db = if param(0) == 1 { DatabaseType::Ext } else { DatabaseType::Plain };
        let r = Page::read_le_args(&mut Cursor::new(&p.b), (ps as u32, db));
        match r {
            Ok(page) => {
                match write(&page, ps, 0, 0) { Ok(w) => check(same(&w, &p.b), "page type reproduced"), Err(_) => check(false, "page of any type can be written") }
                reach("type");
            }
            Err(_) => check(false, "an empty page of any type is read"),
        }
    }
}
