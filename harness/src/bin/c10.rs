#![no_main]
//! C10: inserting rows into data pages.
use harness::pages::*;
use harness::*;
use rekordcrate::pdb::*;

fn up4(n: u32) -> u32 { (n + 3) / 4 * 4 }
/// A page of `n` stored rows (12 bytes each, packed) of which those in `flags` are present, `gap` unused heap bytes
/// after them counted as used; its sizes describe its content exactly.
fn page(ps: usize, n: usize, flags: &[u16], gap: usize) -> Image {
    let mut p = Image::new(ps, 0x24);
    let mut valid = 0;
    for i in 0..n {
        let at = 40 + ROW * i;
        if n <= 4 { fill(&mut p.b[at..at + ROW], "row"); } else { p.b[at] = i as u8; p.b[at + 5] = !i as u8; }
        p.offset(i / 16, i % 16, ROW * i);
        valid += flags[i / 16] >> (i % 16) & 1;
    }
    let g = n.div_ceil(16);
    for j in 0..g { p.flags(j, flags[j]); p.unknown(j, u16v("unknown")); }
    p.counts(n as u16, valid);
    let used = ROW * n + gap;
    p.space((ps - 40 - used - 4 * g - 2 * n) as u16, used as u16);
    p
}
fn entry(name: &str) -> Row { entry_of(&bytes::<ROW>(name)) }
fn entry_of(b: &[u8]) -> Row {
    match rda::<Row, _>(b, (PageType::Plain(PlainPageType::HistoryEntries),)) { Ok((r, _)) => r, Err(_) => { check(false, "row read"); loop {} } }
}

harnesses! {
    // any requested size against any free space; params: page size, rows, present bits
    fn h_room() {
        let (ps, n) = (param(0) as usize, param(1) as usize);
        let mut p = page(ps, n, &[param(2) as u16, 0], 0);
        // used and free size: any values that describe the content
        let (free, used) = (u16v("free"), u16v("used"));
        let g = n.div_ceil(16);
        assume(used as usize >= ROW * n && used % 4 == 0);
        assume(free as usize + used as usize + 4 * g + 2 * n <= ps - 40);
        p.space(free, used);
        let mut page = match p.read() { Ok(p) => p, Err(_) => { check(false, "page read"); return } };
        let before = page.clone();
        let bytes = u16v("bytes");
        let some = match page.allocate_row(bytes) { Some(f) => { drop(f); true } None => false };
        let need = up4(bytes as u32);
        if some {
            check(need + 2 + if n % 16 == 0 { 4 } else { 0 } <= free as u32, "a row is only placed where it fits");
            check(page.header.used_size as u32 == used as u32 + need, "the used size grows by the aligned row size");
            check(page.header.free_size as u32 == free as u32 - need - 2 - if n % 16 == 0 { 4 } else { 0 }, "the free size shrinks by the row and its directory entry");
            check(page.header.packed_row_counts.num_rows() as usize == n + 1, "one more row is counted");
            reach("placed");
        } else {
            check(need + 6 > free as u32, "no room is reported only when there is none");
            check(page == before, "a page without room is left unchanged");
            reach("opt:full");
        }
    }
    // insertions until full; params: page size, rows, number of arbitrary presence bits, insertions, largest gap / 4
    fn h_insert() {
        let (ps, n, k, m, gaps) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize, param(4));
        let g = n.div_ceil(16);
        let mut flags = [0u16; 4];
        for j in 0..g {
            let used = if 16 * (j + 1) <= n { 16 } else { n - 16 * j };
            for i in 0..used {
                // the last rows of a group are the arbitrary ones
                let set = if i + k >= used { choose(2, "present") } else { 1 };
                flags[j] |= (set as u16) << i;
            }
        }
        let gap = 4 * choose(gaps + 1, "gap") as usize;
        let p = page(ps, n, &flags, gap);
        let mut page = match p.read() { Ok(p) => p, Err(_) => { check(false, "page read"); return } };
        let head = page.header.clone();
        // what the page holds: heap offset, row bytes; and the directory
        let mut held: Vec<(u16, Vec<u8>)> = Vec::new();
        for i in 0..n { if flags[i / 16] >> (i % 16) & 1 == 1 { held.push(((ROW * i) as u16, p.b[40 + ROW * i..40 + ROW * (i + 1)].to_vec())); } }
        let (mut rows, mut used, mut free) = (n, head.used_size as u32, head.free_size as u32);
        let mut stored: Vec<usize> = (0..n).map(|i| ROW * i).collect();
        for _ in 0..m {
            let size = ROW as u32 + choose(6, "slack") as u32;
            let b = bytes::<ROW>("new");
            let row = entry_of(&b);
            let before = page.clone();
            let fits = up4(size) + 2 + if rows % 16 == 0 { 4 } else { 0 };
            let placed = match page.allocate_row(size as u16) { Some(insert) => { insert(row); true } None => false };
            match placed {
                true => {
                    check(fits <= free, "a row is only placed where it fits (sequence)");
                    let at = used;
                    used += up4(size);
                    free -= fits;
                    if rows % 16 == 0 { flags[rows / 16] = 0; }
                    flags[rows / 16] |= 1 << (rows % 16);
                    rows += 1;
                    stored.push(at as usize);
                    held.push((at as u16, b.to_vec()));
                    reach("inserted");
                }
                false => {
                    check(up4(size) + 6 > free, "no room is reported only when there is none (sequence)");
                    check(page == before, "a page without room is left unchanged (sequence)");
                    reach("opt:full");
                }
            }
        }
        check(page.header.used_size as u32 == used, "the used size describes the content");
        check(page.header.free_size as u32 == free, "the free size describes the content");
        check(used as usize + free as usize + 2 * rows + 4 * rows.div_ceil(16) == ps - 40, "used space, free space and directory fill the page");
        check(page.header.packed_row_counts.num_rows() as usize == rows && page.header.packed_row_counts.num_rows_valid() as usize == held.len(), "the row counts describe the content");
        let w = wra(&page, (ps as u32,));
        let w = match w { Ok(w) => w, Err(_) => { check(false, "a page with inserted rows is written"); return } };
        check(w.len() == ps, "the written page has the page size");
        // every old row that is present and every new row is in the image where the directory says
        let end = w.len();
        for (o, b) in &held { check(same(&w[40 + *o as usize..40 + *o as usize + ROW], b), "every row is stored intact"); }
        for i in 0..rows {
            let f = u16::from_le_bytes([w[end - 36 * (i / 16) - 4], w[end - 36 * (i / 16) - 3]]);
            check(f == flags[i / 16], "the presence bits describe the content");
            if f >> (i % 16) & 1 == 1 {
                let a = end - 36 * (i / 16) - 4 - 2 * (i % 16 + 1);
                check(u16::from_le_bytes([w[a], w[a + 1]]) as usize == stored[i], "the directory points to every row");
            }
        }
        match pages::read(&w, ps) {
            Ok(q) => {
                check(q == page, "reading the written page gives the page with its new rows");
                let d = q.content.as_data().map(|d| d.rows.len());
                check(d == Some(held.len()), "no row is lost");
            }
            Err(_) => check(false, "the written page is read again"),
        }
    }
    // an extended row-size request on pages whose counters are at their limits; params: rows, valid rows, page size
    fn h_limit() {
        let (n, valid, ps) = (param(0) as usize, param(1) as usize, param(2) as usize);
        let mut p = Image::new(ps, 0x24);
        p.counts(n as u16, valid as u16);
        for i in 0..n {
            p.offset(i / 16, i % 16, 4 * i);
            if i % 16 == 0 { let f = if valid >= i + 16 { 0xffff } else if valid > i { (1u32 << (valid - i)) as u16 - 1 } else { 0 }; p.flags(i / 16, f); }
        }
        let used = 4 * n + 8;
        p.space((ps - 40 - used - 2 * n - 4 * n.div_ceil(16)).min(65532) as u16, used as u16);
        let mut page = match p.read() { Ok(p) => p, Err(_) => { check(false, "page read"); return } };
        let row = entry("new");
        let before = page.header.clone();
        let b = u16v("bytes");
        assume(b >= ROW as u16);
        let placed = match page.allocate_row(b) { Some(insert) => { insert(row); true } None => false };
        match placed {
            true => {
                check(n < 8191 && valid < 2047, "the row counters are never exceeded");
                check(page.header.packed_row_counts.num_rows() as usize == n + 1, "one more row is counted (limit)");
                check(page.header.packed_row_counts.num_rows_valid() as usize == valid + 1, "one more valid row is counted");
                reach("opt:placed");
            }
            false => { check(page.header == before, "a full page is left unchanged"); reach("opt:full"); }
        }
    }
    // pages larger than the heap offsets can address; param: used size
    fn h_large() {
        let ps = 0x20000;
        let used = param(0) as u16;
        let mut p = Image::new(ps, 0x24);
        p.space(u16v("free"), used);
        let mut page = match p.read() { Ok(p) => p, Err(_) => { check(false, "page read"); return } };
        let row = entry("new");
        let free = page.header.free_size;
        let b = u16v("bytes");
        assume(b >= ROW as u16);
        let placed = match page.allocate_row(b) { Some(insert) => { insert(row); true } None => false };
        match placed {
            true => {
                check(up4(b as u32) + used as u32 <= 65535 && up4(b as u32) + 6 <= free as u32, "a row is only placed where offsets can reach");
                check(page.header.used_size as u32 == used as u32 + up4(b as u32), "the used size grows by the aligned row size (large)");
                reach("opt:placed");
            }
            false => { check(page.header.used_size == used && page.header.free_size == free && page.header.packed_row_counts.num_rows() == 0, "a full page is left unchanged (large)"); reach("opt:full"); }
        }
    }
    // index pages hold no rows
    fn h_index() {
        let mut p = Image::new(0x60, 0x64);
        p.b[32 + 4] = 0xec; p.b[32 + 5] = 3;
        p.b[32 + 16] = 0xff; p.b[32 + 17] = 0xff; p.b[32 + 18] = 0xff; p.b[32 + 19] = 3;
        p.space(u16v("free"), u16v("used"));
        match p.read() {
            Ok(mut page) => {
                let before = page.clone();
                let none = page.allocate_row(u16v("bytes")).is_none();
                check(none, "no row is placed in an index page");
                check(page == before, "an index page is left unchanged");
                reach("index");
            }
            Err(_) => check(false, "index page read"),
        }
    }
}
