#![no_main]
//! C11: index entries and index pages.
use harness::pages::*;
use harness::*;
use rekordcrate::pdb::*;

const EMPTY: u32 = 0x1FFF_FFF8;
const IH: usize = 32; // the index header
const IE: usize = 60; // the entries

/// an index page in normal form: `n` entries with arbitrary content, empty slots, twenty zero bytes
fn image(ps: usize, n: usize) -> Image {
    let mut p = Image::new(ps, 0x64);
    let total = (ps - 80) / 4;
    p.b[IH + 4] = 0xec; p.b[IH + 5] = 3;
    p.put32(IH + 16, 0x03ff_ffff);
    p.put16(IH + 24, n as u16);
    for i in n..total { p.put32(IE + 4 * i, EMPTY); }
    p
}

harnesses! {
    // packing and unpacking
    fn h_entry() {
        let (page, flags) = (u32v("page"), u8v("flags"));
        let i = PageIndex::try_from(page);
        check(i.is_ok() == (page < 0x03FF_FFFF), "exactly the page numbers below 0x3ffffff are valid");
        let i = match i { Ok(i) => i, Err(_) => { reach("invalid page"); return } };
        match IndexEntry::try_from((i, flags)) {
            Ok(e) => {
                check(flags < 8, "more than three flag bits are rejected");
                check(matches!(e.page_index(), Ok(p) if p == i), "an entry keeps its page number");
                check(e.index_flags() == flags, "an entry keeps its flags");
                check(!e.is_empty(), "an entry for a page is not empty");
                let w = match wr(&e) { Ok(w) => w, Err(_) => { check(false, "entry written"); return } };
                check(same(&w, &(page << 3 | flags as u32).to_le_bytes()), "entries are stored with the flags in the low three bits");
                match rd::<IndexEntry>(&w) { Ok((r, n)) => check(r == e && n == 4, "a written entry is read again"), Err(_) => check(false, "entry read") }
                reach("valid");
            }
            Err(_) => { check(flags >= 8, "three flag bits are accepted"); reach("invalid flags"); }
        }
    }
    // every stored value
    fn h_raw() {
        let b = bytes::<4>("entry");
        let v = u32::from_le_bytes(b);
        let (e, _) = match rd::<IndexEntry>(&b) { Ok(e) => e, Err(_) => { check(false, "every entry is read"); return } };
        check(e.is_empty() == (v == EMPTY), "an empty slot is recognised");
        check(e.index_flags() == (v & 7) as u8, "flags are the low three bits");
        match e.page_index() {
            Ok(p) => { check(v >> 3 < 0x03FF_FFFF && p.offset(1) == (v >> 3) as u64, "the page number is the upper 29 bits"); reach("page"); }
            Err(_) => { check(v >> 3 >= 0x03FF_FFFF, "a valid page number is returned"); reach("none"); }
        }
        check(match wr(&e) { Ok(w) => same(&w, &b), Err(_) => false }, "a read entry is written unchanged");
        check((e == IndexEntry::empty()) == (v == EMPTY), "only the empty slot equals the empty entry");
    }
    fn h_show() {
        let b = bytes::<4>("entry");
        let v = u32::from_le_bytes(b);
        assume(v >> 3 >= 0x03FF_FFF0 && v >> 3 <= 0x0400_0010 || v >> 3 < 16 || v >> 3 > 0x1FFF_FFF0);
        let v = fork(v as u64) as u32;
        let (e, _) = match rd::<IndexEntry>(&v.to_le_bytes()) { Ok(e) => e, Err(_) => return };
        let s = format!("{:?}", e);
        check(s.contains("is_empty: true") == (v == EMPTY), "the debug form tells empty slots");
        reach("shown");
    }
    // whole pages; params: page size, entries, arbitrary entries
    fn h_page() {
        let (ps, n, k) = (param(0) as usize, param(1) as usize, param(2) as usize);
        let mut p = image(ps, n);
        for at in [4, 12, 16, 20] { fill(&mut p.b[at..at + 4], "head"); }
        fill(&mut p.b[24..27], "counts");
        fill(&mut p.b[28..32], "sizes");
        fill(&mut p.b[IH..IH + 4], "unknown");
        fill(&mut p.b[IH + 6..IH + 16], "index");
        fill(&mut p.b[IH + 26..IH + 28], "first");
        for i in 0..n {
            if i < k || i + 1 == n { fill(&mut p.b[IE + 4 * i..IE + 4 * i + 4], "entry"); } else { p.put32(IE + 4 * i, (i as u32) << 3 | (i as u32 & 7)); }
        }
        let page = match p.read() { Ok(p) => p, Err(_) => { check(false, "an index page is read"); return } };
        let c = match page.content.as_index() { Some(c) => c, None => { check(false, "a page with the index flag holds entries"); return } };
        let g16 = |o: usize| u16::from_le_bytes([p.b[IH + o], p.b[IH + o + 1]]);
        let g32 = |o: usize| u32::from_le_bytes([p.b[IH + o], p.b[IH + o + 1], p.b[IH + o + 2], p.b[IH + o + 3]]);
        let h = &c.header;
        check(h.unknown_a == g16(0) && h.unknown_b == g16(2) && h.next_offset == g16(6) && h.num_entries as usize == n && h.first_empty == g16(26), "index header fields come from their bytes");
        check(h.page_index.offset(1) == g32(8) as u64 && h.next_page.offset(1) == g32(12) as u64, "index header pages come from their bytes");
        check(c.entries.len() == n, "as many entries as declared");
        let mut ok = true;
        for i in 0..n { let v = g32(28 + 4 * i); ok &= c.entries[i].index_flags() == (v & 7) as u8; ok &= c.entries[i].is_empty() == (v == EMPTY); }
        check(ok, "entries come from their slots");
        let w = match wra(&page, (ps as u32,)) { Ok(w) => w, Err(_) => { check(false, "an index page is written"); return } };
        check(w.len() == ps, "an index page fills one page");
        check(same(&w, &p.b), "a written index page has the same bytes");
        match pages::read(&w, ps) { Ok(q) => check(q == page, "a written index page is read again"), Err(_) => check(false, "written index page read") }
    }
    // a stored entry count of any value; params: page size, bytes following the page
    fn h_count() {
        let (ps, more) = (param(0) as usize, param(1) as usize);
        let mut p = image(ps, 0);
        let total = (ps - 80) / 4;
        let n = u16v("entries");
        p.put16(IH + 24, n);
        let mut b = p.b.clone();
        b.resize(ps + more, 0);
        match pages::read(&b, ps) {
            Ok(page) => {
                check(n as usize <= total, "a page claiming more entries than fit is rejected");
                check(page.content.as_index().map(|c| c.entries.len()) == Some(n as usize), "as many entries as declared (count)");
                match wra(&page, (ps as u32,)) { Ok(w) => check(w.len() == ps, "an index page fills one page (count)"), Err(_) => check(false, "an index page is written (count)") }
                reach("fits");
            }
            Err(_) => { check(n as usize > total, "a page whose entries fit is read"); reach("too many"); }
        }
    }
    // markers of the index header; param: marker byte
    fn h_marker() {
        let i = param(0) as usize;
        let mut p = image(0x60, 0);
        let at = IH + if i < 2 { 4 + i } else { 14 + i };
        let want = p.b[at];
        fill(&mut p.b[at..at + 1], "marker");
        check(p.read().is_ok() == (p.b[at] == want), "an index page with other marker values is rejected");
        reach("marker");
    }
    // entries added to a page by its user; params: page size, entries
    fn h_user() {
        let (ps, n) = (param(0) as usize, param(1) as usize);
        let mut page = match image(ps, 0).read() { Ok(p) => p, Err(_) => { check(false, "page read"); return } };
        if let Some(c) = page.content.as_index_mut() {
            for i in 0..n { if let Ok((e, _)) = rd::<IndexEntry>(&[(i as u8) << 3, 0, 0, 0]) { c.entries.push(e); } }
            c.header.num_entries = n as u16;
        }
        let total = (ps - 80) / 4;
        match wra(&page, (ps as u32,)) {
            Ok(w) => { check(n <= total && w.len() == ps, "only entries that fit are written"); reach("opt:written"); }
            Err(_) => { check(n > total, "entries that fit are written"); reach("opt:refused"); }
        }
    }
    // page sizes too small for an index page; param: page size
    fn h_tiny() {
        let ps = param(0) as usize;
        let mut p = image(0x60, 0);
        p.put16(IH + 24, u16v("entries"));
        let r = pages::read(&p.b, ps);
        check(r.is_err(), "a page size with no room for the index header is rejected");
        reach("tiny");
    }
}
