#![no_main]
//! C15: packed row counts and page flags.
use harness::pages::*;
use harness::*;
use rekordcrate::pdb::bitfields::*;

fn get(b: &[u8; 3]) -> u32 { u32::from_le_bytes([b[0], b[1], b[2], 0]) }
fn flag(f: &PageFlags, i: usize) -> bool {
    match i { 0 => f.unknown0(), 1 => f.unknown1(), 2 => f.unknown2(), 3 => f.unknown3(), 4 => f.contains_deleted(), 5 => f.unknown5(), 6 => f.is_index_page(), _ => f.unknown7() }
}
fn set(f: &mut PageFlags, i: usize, v: bool) {
    match i { 0 => f.set_unknown0(v), 1 => f.set_unknown1(v), 2 => f.set_unknown2(v), 3 => f.set_unknown3(v), 4 => f.set_contains_deleted(v), 5 => f.set_unknown5(v), 6 => f.set_is_index_page(v), _ => f.set_unknown7(v) }
}

harnesses! {
    fn h_counts() {
        let b = bytes::<3>("counts");
        let (c, n) = match rd::<PackedRowCounts>(&b) { Ok(c) => c, Err(_) => { check(false, "every value is read"); return } };
        check(n == 3, "the counters take three bytes");
        check(c.num_rows() as u32 == get(&b) & 0x1fff, "the row count is the low 13 bits");
        check(c.num_rows_valid() as u32 == get(&b) >> 13, "the valid row count is the high 11 bits");
        check(match wr(&c) { Ok(w) => same(&w, &b), Err(_) => false }, "counters are written unchanged");
        reach("counts");
    }
    fn h_set_counts() {
        let b = bytes::<3>("counts");
        let (mut c, _) = match rd::<PackedRowCounts>(&b) { Ok(c) => c, Err(_) => return };
        let v = u16v("value");
        if boolv("valid") {
            assume(v < 2048);
            c.set_num_rows_valid(v);
            check(c.num_rows_valid() == v && c.num_rows() as u32 == get(&b) & 0x1fff, "setting the valid count changes nothing else");
            check(match wr(&c) { Ok(w) => same(&w, &(get(&b) & 0x1fff | (v as u32) << 13).to_le_bytes()[..3]), Err(_) => false }, "the valid count is stored in its bits");
            reach("valid");
        } else {
            assume(v < 8192);
            c.set_num_rows(v);
            check(c.num_rows() == v && c.num_rows_valid() as u32 == get(&b) >> 13, "setting the row count changes nothing else");
            check(match wr(&c) { Ok(w) => same(&w, &(get(&b) >> 13 << 13 | v as u32).to_le_bytes()[..3]), Err(_) => false }, "the row count is stored in its bits");
            reach("rows");
        }
    }
    fn h_new() {
        let v = u16v("value");
        assume(v < 2048);
        let c = PackedRowCounts::from_all_valid(v as usize);
        check(c.num_rows() == v && c.num_rows_valid() == v, "all rows are counted as valid");
        let d = PackedRowCounts::default();
        check(d.num_rows() == 0 && d.num_rows_valid() == 0, "counters start at zero");
        let w = u16v("rows");
        assume(w < 8192);
        let e = PackedRowCounts::new().with_num_rows(w).with_num_rows_valid(v);
        check(e.num_rows() == w && e.num_rows_valid() == v, "counters are built from their values");
        let e = PackedRowCounts::new().with_num_rows_valid(v).with_num_rows(w);
        check(e.num_rows() == w && e.num_rows_valid() == v, "counters are built in any order");
        reach("new");
    }
    fn h_flags() {
        let b = bytes::<1>("flags");
        let (f, n) = match rd::<PageFlags>(&b) { Ok(f) => f, Err(_) => { check(false, "every flag byte is read"); return } };
        check(n == 1, "the flags take one byte");
        for i in 0..8 { check(flag(&f, i) == (b[0] >> i & 1 == 1), "every flag has its bit"); }
        check(match wr(&f) { Ok(w) => same(&w, &b), Err(_) => false }, "flags are written unchanged");
        reach("flags");
    }
    // param: flag
    fn h_set_flag() {
        let i = param(0) as usize;
        let b = bytes::<1>("flags");
        let (mut f, _) = match rd::<PageFlags>(&b) { Ok(f) => f, Err(_) => return };
        let v = boolv("value");
        set(&mut f, i, v);
        let want = b[0] & !(1 << i) | (v as u8) << i;
        check(match wr(&f) { Ok(w) => same(&w, &[want]), Err(_) => false }, "setting a flag changes its bit only");
        for j in 0..8 { check(flag(&f, j) == (want >> j & 1 == 1), "setting a flag changes no other flag"); }
        reach("set");
    }
    fn h_pages() {
        check(match wr(&PageFlags::new_data_page()) { Ok(w) => same(&w, &[0x24]), Err(_) => false }, "flags of a data page");
        check(match wr(&PageFlags::new_index_page()) { Ok(w) => same(&w, &[0x64]), Err(_) => false }, "flags of an index page");
        check(match wr(&PageFlags::default()) { Ok(w) => same(&w, &[0x24]), Err(_) => false }, "default flags");
        reach("pages");
    }
    // in a page header: the bytes before and after are not part of the counters
    fn h_in_page() {
        let mut p = Image::new(0x60, 0x24);
        fill(&mut p.b[16..32], "head");
        let flags = p.b[27];
        assume(flags & 0x40 == 0);
        // no rows are stored; the counters are nevertheless any that are accepted
        p.b[24] = 0; p.b[25] &= 0; p.b[26] = 0;
        let page = match p.read() { Ok(p) => p, Err(_) => { check(false, "page read"); return } };
        for i in 0..8 { check(flag(&page.header.page_flags, i) == (flags >> i & 1 == 1), "page flags are byte 27 of the page"); }
        let mut q = page.clone();
        let (n, v) = (u16v("rows"), u16v("valid"));
        assume(n < 8192 && v < 2048);
        q.header.packed_row_counts.set_num_rows(n);
        q.header.packed_row_counts.set_num_rows_valid(v);
        match wra(&q.header, ()) {
            Ok(w) => {
                check(same(&w[..24], &p.b[..24]) && same(&w[27..32], &p.b[27..32]), "counters do not reach into neighbouring fields");
                check(same(&w[24..27], &(n as u32 | (v as u32) << 13).to_le_bytes()[..3]), "counters are bytes 24 to 26 of the page");
                reach("page");
            }
            Err(_) => check(false, "page header written"),
        }
    }
}
