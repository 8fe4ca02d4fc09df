#![no_main]
//! C08: row presence in data pages.
use harness::pages::*;
use harness::*;
use rekordcrate::pdb::*;

fn popcount(f: u16) -> u32 { let mut n = 0; for i in 0..16 { n += (f >> i & 1) as u32; } n }

/// the rows exposed are exactly those flagged: (flags, offsets) per group
fn exact(page: &Page, img: &[u8], groups: &[(u16, [usize; 16])]) {
    let data = page.content.as_data();
    check(data.is_some(), "a page without the index flag holds rows");
    let data = match data { Some(d) => d, None => return };
    let mut left = data.rows.len();
    for (flags, offs) in groups {
        for i in 0..16 {
            if fork((*flags >> i & 1) as u64) == 1 {
                match data.rows.get(&(offs[i] as u16)) {
                    Some(r) => {
                        let w = wr(r);
                        let at = 40 + offs[i];
                        check(match w { Ok(w) => w.len() == ROW && same(&w, &img[at..at + ROW]), Err(_) => false }, "a present row is read from the heap offset stored for it");
                        left -= 1;
                    }
                    None => check(false, "a row flagged present is exposed"),
                }
            }
        }
    }
    check(left == 0, "no row is exposed that is not flagged present");
    reach("exposed");
}

harnesses! {
    // params: first arbitrary presence bit, number of arbitrary bits, fixed bits, page size
    fn h_flags() {
        let (lo, k, fixed, ps) = (param(0), param(1), param(2) as u16, param(3) as usize);
        let f = u16v("flags");
        assume(f & !((((1u32 << k) - 1) << lo) as u16) == fixed);
        let mut p = Image::new(ps, 0x24);
        fill(&mut p.b[40..40 + 16 * ROW], "heap");
        let valid = u16v("valid");
        assume(valid < 2048);
        p.counts(16, valid);
        let mut offs = [0; 16];
        for i in 0..16 { offs[i] = (15 - i) * ROW; p.offset(0, i, offs[i]); }
        p.flags(0, f);
        let r = p.read();
        let n = popcount(f);
        match r {
            Ok(page) => { check(n == valid as u32, "a page whose valid count disagrees with its presence bits is rejected"); exact(&page, &p.b, &[(f, offs)]); }
            Err(_) => { check(n != valid as u32, "a consistent page is read"); reach("rejected"); }
        }
    }
    // params: number of rows, arbitrary presence bits per group
    fn h_groups() {
        let (n, k) = (param(0) as usize, param(1) as usize);
        let g = n.div_ceil(16);
        let mut p = Image::new(0x240, 0x24);
        fill(&mut p.b[40..40 + n * ROW], "heap");
        let valid = u16v("valid");
        assume(valid < 2048);
        p.counts(n as u16, valid);
        let mut groups = Vec::new();
        let mut total = 0;
        for j in 0..g {
            let f = u16v("flags");
            // the arbitrary bits sit at different places in every group
            let used = if 16 * (j + 1) <= n { 16 } else { n % 16 };
            let mut mask = 0u16;
            for i in 0..k.min(used) { mask |= 1 << ((i * 5 + j) % used); }
            assume(f & !mask == 0);
            let mut offs = [0; 16];
            for i in 0..used { offs[i] = (n - 1 - (16 * j + i)) * ROW; p.offset(j, i, offs[i]); }
            for i in used..16 { if g == 1 { p.offset(j, i, 0xffff); } }
            p.flags(j, f);
            total += popcount(f);
            groups.push((f, offs));
        }
        match p.read() {
            Ok(page) => {
                check(total == valid as u32, "a page whose valid count disagrees with its presence bits is rejected (groups)");
                check(page.content.as_data().map(|d| d.row_groups.len()) == Some(g), "as many row groups as the row count requires");
                exact(&page, &p.b, &groups);
            }
            Err(_) => { check(total != valid as u32, "a consistent page is read (groups)"); reach("rejected"); }
        }
    }
    // rows of one group at arbitrary heap offsets
    fn h_offsets() {
        let k = param(0) as usize;
        let ps = param(1) as usize;
        let mut p = Image::new(ps, 0x24);
        let heap = ps - 40;
        fill(&mut p.b[40..40 + heap - 36], "heap");
        let mut offs = [0usize; 16];
        for i in 0..k {
            let o = u16v("offset");
            assume((o as usize) + ROW <= heap);
            offs[i] = fork(o as u64) as usize;
            p.offset(0, i, offs[i]);
        }
        let f = ((1u32 << k) - 1) as u16;
        p.flags(0, f);
        p.counts(k as u16, k as u16);
        let mut distinct = true;
        for i in 0..k { for j in 0..i { distinct &= offs[i] != offs[j]; } }
        match p.read() {
            Ok(page) => { check(distinct, "two present rows never share one heap offset"); exact(&page, &p.b, &[(f, offs)]); }
            Err(_) => { check(!distinct, "present rows anywhere in the heap are read"); reach("opt:shared"); }
        }
    }
    // only the page type and flags decide how a page is read
    fn h_kind() {
        let flags = u8v("flags");
        let mut p = Image::new(0x60, flags);
        p.counts(0, 0);
        match p.read() {
            Ok(page) => {
                check(page.header.page_flags.is_index_page() == (flags & 0x40 != 0), "bit 6 of the flags marks index pages");
                check(page.content.as_data().is_some() == (flags & 0x40 == 0), "pages without the index flag hold rows");
                reach("data");
            }
            Err(_) => { check(flags & 0x40 != 0, "an empty data page is read"); reach("index"); }
        }
    }
}
