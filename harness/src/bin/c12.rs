#![no_main]
//! C12: iterating the pages and rows of a table.
use fallible_iterator::FallibleIterator;
use harness::db::*;
use harness::*;
use rekordcrate::pdb::*;
use rekordcrate::util::TableIndex;

const KIND: PageType = PageType::Plain(PlainPageType::PlaylistEntries);

/// follow the chain; the pages reached and whether it ends well
fn chain(first: u32, last: u32, next: &[u32], present: u32) -> (Vec<u32>, bool) {
    let mut seen = Vec::new();
    let mut at = first;
    loop {
        let prev = seen.last().copied().unwrap_or(0);
        if at <= prev || at > present || at as usize > next.len() { return (seen, false); }
        seen.push(at);
        if at == last { return (seen, true); }
        at = next[at as usize - 1];
    }
}

harnesses! {
    // params: pages (without the header page), next unused page, first page; arbitrary last page and links
    fn h_pages() {
        let (n, unused, first) = (param(0) as usize, param(1) as u32, param(2) as u32);
        let mut d = Db::new(0x60, n + 1, unused, 1);
        let last = choose(n as u64 + 2, "last") as u32;
        d.table(0, TYPE, first, last);
        let mut next = Vec::new();
        for i in 1..=n {
            let l = choose(n as u64 + 2, "link") as u32;
            next.push(l);
            if i == 1 { d.index(i, TYPE, l, 1); } else { d.data(i, TYPE, l, 1, 1); }
        }
        let (want, ends) = chain(first, last, &next, unused.saturating_sub(1));
        let mut db = match d.reader() { Ok(d) => d, Err(_) => { check(false, "database opened"); return } };
        for by_index in [false, true] {
            let it = if by_index { db.iter_pages_for_table(TableIndex::from(0)) } else { db.iter_pages(KIND) };
            let mut it = match it { Ok(i) => i, Err(_) => { check(false, "a present table is iterated"); return } };
            let mut k = 0;
            let mut good = true;
            loop {
                match it.next() {
                    Ok(Some(p)) => {
                        check(k < want.len(), "no page beyond the chain is visited");
                        if k >= want.len() { return; }
                        check(p.header.page_index.offset(1) == want[k] as u64, "pages are visited in chain order");
                        k += 1;
                    }
                    Ok(None) => break,
                    Err(_) => { good = false; break; }
                }
            }
            check(k == want.len(), "every page of the chain is visited");
            check(good == ends, "iteration ends at the last page, and with an error when the chain loops, runs backwards or leaves the file");
            // the end is final
            match it.next() { Ok(Some(_)) => check(false, "no page follows the end"), Ok(None) => check(good, "an error is not forgotten"), Err(_) => check(!good, "a finished iteration stays finished") }
            if good { reach("end"); } else { reach("opt:error"); }
        }
    }
    // a chain reaching far beyond the file; first page, last page and link arbitrary numbers
    fn h_far() {
        let mut d = Db::new(0x60, 3, 3, 1);
        let (first, last, link) = (u32v("first"), u32v("last"), u32v("link"));
        d.table(0, TYPE, first, last);
        d.index(1, TYPE, link, 1);
        d.data(2, TYPE, u32v("link2"), 1, 1);
        let mut db = match d.reader() { Ok(d) => d, Err(_) => { check(false, "database opened (far)"); return } };
        let mut it = match db.iter_pages(KIND) { Ok(i) => i, Err(_) => { check(false, "table found (far)"); return } };
        let a = it.next();
        match a {
            Ok(Some(p)) => { check((first == 1) | (first == 2), "the first page is the table's first page"); check(p.header.page_index.offset(1) == first as u64, "the first page is the table's first page (number)"); }
            Ok(None) => check(false, "a table has at least its first page"),
            Err(_) => { check(first != 1 && first != 2, "a present first page is loaded"); reach("missing"); return; }
        }
        match it.next() {
            Ok(Some(p)) => { check(first == 1 && last != 1 && link == 2, "the second page is the linked one"); check(p.header.page_index.offset(1) == 2, "the second page is the linked one (number)"); reach("two"); }
            Ok(None) => { check(last == first, "iteration ends at the last page"); reach("one"); }
            Err(_) => { check(last != first && !(first == 1 && link == 2), "a present second page is loaded"); reach("broken"); }
        }
    }
    // the rows of a table; params: rows stored in each page
    fn h_rows() {
        let (m, sorted) = (param(0) as usize, param(1) == 1);
        let mut d = Db::new(0xa0, 6, 6, 2);
        // the wanted table: index 1, data 2, data 4; another table: index 3, data 5
        d.table(0, TYPE + 4, 3, 5);
        d.table(1, TYPE, 1, 4);
        d.index(1, TYPE, 2, 2);
        d.index(3, TYPE + 4, 5, 1);
        d.data(5, TYPE + 4, 9, 1, 1);
        let mut want = Vec::new();
        for (page, next) in [(2usize, 4u32), (4, 9)] {
            let mut flags = 0;
            for i in 0..m { flags |= (choose(2, "present") as u16) << i; }
            d.data(page, TYPE, next, m, flags);
            // rows can be stored in any order of the directory
            if !sorted { let end = (page + 1) * d.ps; for i in 0..m { d.put16(end - 4 - 2 * (i + 1), (ROW * (m - 1 - i)) as u16); } }
            for i in 0..m { let at = d.row(page, i); fill(&mut d.b[at..at + ROW], "row"); }
            for i in 0..m {
                let slot = if sorted { i } else { m - 1 - i };
                if flags >> slot & 1 == 1 { let at = d.row(page, i); want.push(d.b[at..at + ROW].to_vec()); }
            }
        }
        let mut db = match d.reader() { Ok(d) => d, Err(_) => { check(false, "database opened (rows)"); return } };
        let mut it = match db.iter_rows::<PlaylistEntry>() { Ok(i) => i, Err(_) => { check(false, "rows of a present table are iterated"); return } };
        let mut k = 0;
        loop {
            match it.next() {
                Ok(Some(r)) => {
                    check(k < want.len(), "no row is exposed that is not present");
                    if k >= want.len() { return; }
                    let mut b = [0u8; 12];
                    b[..4].copy_from_slice(&r.entry_index.to_le_bytes());
                    b[4..8].copy_from_slice(&r.track_id.0.to_le_bytes());
                    b[8..].copy_from_slice(&r.playlist_id.0.to_le_bytes());
                    check(same(&b, &want[k]), "the rows are those stored in the table's pages");
                    k += 1;
                    reach("row");
                }
                Ok(None) => break,
                Err(_) => { check(false, "rows of intact pages are read"); return; }
            }
        }
        check(k == want.len(), "every present row is exposed");
        reach("rows");
    }
    // a page in the chain that is of another type than the table; param: its type
    fn h_foreign() {
        let mut d = Db::new(0x60, 4, 4, 1);
        d.table(0, TYPE, 1, 3);
        d.index(1, TYPE, 2, 1);
        d.data(2, param(0) as u32, 3, 1, 1);
        d.data(3, TYPE, 9, 1, 1);
        let mut db = match d.reader() { Ok(d) => d, Err(_) => { check(false, "database opened (foreign)"); return } };
        let mut it = match db.iter_rows::<PlaylistEntry>() { Ok(i) => i, Err(_) => { check(false, "table found (foreign)"); return } };
        let mut n = 0;
        let good = loop { match it.next() { Ok(Some(_)) => n += 1, Ok(None) => break true, Err(_) => break false } };
        check(n <= 2, "a foreign page adds no rows");
        check(!good || (param(0) as u32 == TYPE) == (n == 2), "rows of a foreign type are not passed off as rows of the table");
        reach("foreign");
    }
    // tables that do not exist
    fn h_missing() {
        let t = u32v("type");
        assume(t != TYPE);
        let mut d = Db::new(0x60, 3, 3, 2);
        d.table(0, 12, 1, 1);
        d.table(1, 0, 1, 1);
        d.put32(44, t);
        d.index(1, TYPE, 2, 1);
        let mut db = match d.reader() { Ok(d) => d, Err(_) => { check(false, "database opened (missing)"); return } };
        check(db.iter_pages(KIND).is_err(), "a table type the database has not got is an error");
        let i = u8v("table") as usize;
        check(db.iter_pages_for_table(TableIndex::from(i)).is_ok() == (i < 2), "a table number the database has not got is an error");
        check(db.iter_rows::<PlaylistEntry>().is_err(), "rows of a missing table are an error");
        reach("missing");
    }
    // loading single pages; param: next unused page
    fn h_load() {
        let unused = param(0) as u32;
        let mut d = Db::new(0x60, 4, unused, 1);
        d.table(0, TYPE, 1, 3);
        d.index(1, TYPE, 2, 1);
        d.data(2, TYPE, 3, 1, 1);
        d.data(3, TYPE, 4, 2, 3);
        for i in 1..4 { fill(&mut d.b[0x60 * i + 16..0x60 * i + 20], "id"); }
        let mut db = match d.reader() { Ok(d) => d, Err(_) => { check(false, "database opened (load)"); return } };
        let i = u32v("page");
        let ix = match PageIndex::try_from(i) { Ok(i) => i, Err(_) => return };
        let want = i >= 1 && i < 4 && i < unused;
        match db.load_page(ix) {
            Ok(p) => {
                check(want, "only pages of the file are loaded");
                let at = 0x60 * fork(i as u64) as usize + 16;
                check(p.header.unknown1 == d.get32(at), "a page is loaded from its place in the file");
                p.header.unknown2 = 77;
                match db.load_page(ix) { Ok(p) => check(p.header.unknown2 == 77, "a loaded page is not loaded again"), Err(_) => check(false, "a loaded page is returned again") }
                reach("loaded");
            }
            Err(_) => { check(!want, "a page of the file is loaded"); reach("refused"); }
        }
    }
}
