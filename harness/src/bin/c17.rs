#![no_main]
//! C17: section framing follows the declared sizes.
use harness::anlz::*;
use harness::*;
use rekordcrate::anlz::*;

const EDIT: &str = "edit";
fn file(head: usize, sections: &[Vec<u8>]) -> Vec<u8> {
    let mut v = b"PMAI".to_vec();
    let n: usize = sections.iter().map(|s| s.len()).sum();
    b32(&mut v, (12 + head) as u32); b32(&mut v, (12 + head + n) as u32);
    raw(&mut v, head, "file_header");
    for s in sections { v.extend_from_slice(s); }
    v
}
/// What was accepted lies where it was declared: every section takes exactly its declared size, in order, and nothing is altered.
fn framed(b: &[u8], a: &ANLZ, used: usize) {
    let head = a.header.size as usize;
    check(a.header_data.len() + 12 == head, "the file header has its declared size");
    check(used == a.header.total_size as usize, "the file occupies exactly its declared size");
    let mut p = head;
    for s in &a.sections {
        let w = match wr_be(s) { Ok(w) => w, Err(_) => { check(false, "an accepted section can be written"); return } };
        check(w.len() == s.header.total_size as usize, "a section occupies exactly its declared size");
        check(p + w.len() <= used, "sections stay inside the file");
        if p + w.len() > used { return; }
        check(same(&w, &b[p..p + w.len()]), "sections are read back to back");
        p += w.len();
    }
    check(p == used, "the sections fill the file");
    check(match wr_be(a) { Ok(w) => same(&w, &b[..used]), Err(_) => false }, "an accepted file is written unchanged");
}
fn accepts(b: &[u8]) -> bool {
    match rd_be::<ANLZ>(b) { Ok((a, n)) => { framed(b, &a, n); true } Err(_) => false }
}
/// a comment of exactly one terminator is a known finding (see C19)
fn no_lone_terminator(b: &[u8], p: usize) { assume(be32(b, p) != 2); }
fn neighbour() -> Vec<u8> { fixed(14, 24, 0, 0) }

harnesses! {
    fn h_file() {
        // a well-formed file of three sections
        let (k, n, m, head) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize);
        let parts = [section(k, n, 0, 2), section((k + 1 + m) % 15, m, 0, 1), section((k + 2) % 15, n, 0, 0)];
        let b = file(head, &parts);
        match rd_be::<ANLZ>(&b) {
            Ok((a, used)) => {
                check(used == b.len() && a.sections.len() == 3, "every section is read");
                check(a.header.size as usize == 12 + head && a.header.total_size as usize == b.len(), "the file header is read");
                check(same(&a.header_data, &b[12..12 + head]), "the file header data is kept");
                framed(&b, &a, used);
                reach("file");
            }
            Err(_) => check(false, "a well-formed file is read"),
        }
    }
    fn h_sizes() {
        // the first section declares any sizes
        let (k, n) = (param(0) as usize, param(1) as usize);
        let one = if k == 2 { fixed(k, n, 0, 2) } else { section(k, n, 0, 2) };
        let (len, head) = (one.len(), be32(&one, 4));
        let mut b = file(16, &[one, neighbour()]);
        let (size, total) = (u32v("size"), u32v("total"));
        put32(&mut b, 28 + 4, size); put32(&mut b, 28 + 8, total);
        if accepts(&b) { check(total as usize == len || k == 4 || k == 14, "only the actual size is accepted"); reach("accepted"); }
        else { check(size != head || total as usize != len, "the actual sizes are accepted"); reach("rejected"); }
    }
    fn h_entries() {
        // the first section declares any number of entries
        let (k, n) = (param(0) as usize, param(1) as usize);
        let one = if k == 2 { fixed(k, n, 0, 2) } else { section(k, n, 0, 2) };
        let mut b = file(16, &[one, neighbour()]);
        let (p, w) = [(20, 4), (18, 2), (16, 2), (12, 4), (0, 0), (12, 4), (12, 4), (16, 4), (16, 4), (16, 4), (16, 4), (16, 4), (16, 2), (16, 2)][k];
        let x = vec(w, EDIT);
        let unchanged = same(&x, &b[28 + p..28 + p + w]);
        b[28 + p..28 + p + w].copy_from_slice(&x);
        if accepts(&b) { check(unchanged, "only the actual number of entries is accepted"); reach("accepted"); }
        else { check(!unchanged, "the actual number of entries is accepted"); reach("rejected"); }
    }
    fn h_file_size() {
        // the file declares any sizes
        let k = param(0) as usize;
        let mut b = file(16, &[section(k, 1, 0, 0), neighbour()]);
        let len = b.len();
        let (size, total) = (u32v("size"), u32v("total"));
        assume(size == 28);
        put32(&mut b, 4, size); put32(&mut b, 8, total);
        let first = 28 + be32(&b, 36) as usize;
        if accepts(&b) { check(total as usize == len || total as usize == first || total as usize == 28, "only sizes that end with a section are accepted"); reach("accepted"); }
        else { check(total as usize != len, "the actual file size is accepted"); reach("rejected"); }
    }
    fn h_file_kind() {
        let mut b = file(0, &[]);
        let kind = bytes::<4>("kind");
        b[..4].copy_from_slice(&kind);
        check(accepts(&b) == (kind == *b"PMAI"), "only analysis files are accepted");
        reach("kind");
    }
    fn h_cue() {
        // an entry of a cue list declares any sizes
        let i = param(0) as usize;
        let mut b = file(0, &[fixed(1, 2, 0, 0), neighbour()]);
        let (size, total) = (u32v("size"), u32v("total"));
        let p = 12 + 24 + 56 * i;
        put32(&mut b, p + 4, size); put32(&mut b, p + 8, total);
        if accepts(&b) { check(total == 56, "a cue entry with a wrong size is rejected"); reach("accepted"); }
        else { check(size != 28 || total != 56, "the actual cue size is accepted"); reach("rejected"); }
    }
    fn h_xcue() {
        // an entry of an extended cue list declares any sizes and any comment length
        let (i, c, t) = (param(0) as usize, param(1) as usize, param(2) as usize);
        let one = fixed(2, 2, c, t);
        let mut b = file(0, &[one, neighbour()]);
        let p = if i == 0 { 12 + 20 } else { 12 + 20 + be32(&b, 12 + 20 + 8) as usize };
        let (total, len) = (be32(&b, p + 8), be32(&b, p + 40));
        let x = u32v(EDIT);
        match param(3) {
            0 => put32(&mut b, p + 8, x),
            _ => { put32(&mut b, p + 40, x); no_lone_terminator(&b, p + 40); }
        }
        let ok = accepts(&b);
        if ok { if param(3) == 0 { check(x == total, "only the actual size of an entry is accepted"); } reach("accepted"); }
        else { check(x != if param(3) == 0 { total } else { len }, "the actual entry is accepted"); reach("rejected"); }
    }
    fn h_unknown() {
        // an unknown section is kept byte for byte, wherever its header ends
        let n = param(0) as usize;
        let mut one = section(14, n, 0, 0);
        let size = 12 + choose(n as u64 + 1, "size") as u32;
        put32(&mut one, 4, size);
        let mut b = file(0, &[neighbour(), one]);
        check(accepts(&b), "an unknown section is accepted");
        let q = b.len() - n - 12;
        let total = u32v("total");
        put32(&mut b, q + 8, total);
        check(accepts(&b) == (total as usize == 12 + n), "an unknown section must fit the file");
        reach("unknown");
    }
    fn h_foreign() {
        // a section of an unknown kind whose content looks like that of a known one
        let (k, n) = (param(0) as usize, param(1) as usize);
        let mut one = section(k, n, 0, 2);
        let kind = bytes::<4>("kind");
        for known in ALL { assume(kind != *known); }
        one[..4].copy_from_slice(&kind);
        let b = file(0, &[neighbour(), one, neighbour()]);
        match rd_be::<ANLZ>(&b) {
            Ok((a, used)) => {
                check(used == b.len() && a.sections.len() == 3, "every section is read");
                check(matches!(a.sections[1].content, Content::Unknown(_)), "content of an unknown kind is not interpreted");
                framed(&b, &a, used);
                reach("foreign");
            }
            Err(_) => check(false, "a section of an unknown kind is read"),
        }
    }
    fn h_kinds() {
        // a section of a known kind is read as that kind or not at all
        let (k, n) = (param(0) as usize, param(1) as usize);
        let mut one = section(k, n, 0, 2);
        if k == 2 { one = fixed(k, n, 0, 2); }
        let j = choose(14, "kind") as usize;
        one[..4].copy_from_slice(KINDS[j]);
        let b = file(0, &[one, neighbour()]);
        match rd_be::<ANLZ>(&b) {
            Ok((a, used)) => {
                let kind = match a.sections[0].content {
                    Content::BeatGrid(_) => b"PQTZ", Content::CueList(_) => b"PCOB", Content::ExtendedCueList(_) => b"PCO2", Content::Path(_) => b"PPTH",
                    Content::VBR(_) => b"PVBR", Content::WaveformPreview(_) => b"PWAV", Content::TinyWaveformPreview(_) => b"PWV2", Content::WaveformDetail(_) => b"PWV3",
                    Content::WaveformColorPreview(_) => b"PWV4", Content::WaveformColorDetail(_) => b"PWV5", Content::Waveform3BandPreview(_) => b"PWV6",
                    Content::Waveform3BandDetail(_) => b"PWV7", Content::SongStructure(_) => b"PSSI", Content::Unknown(_) => b"    ",
                };
                check(kind == KINDS[j], "a section is read as the kind it names");
                framed(&b, &a, used);
                reach("opt:read");
            }
            Err(_) => { check(KINDS[j] != KINDS[k], "a section of its own kind is read"); reach("refused"); }
        }
    }
    fn h_any() {
        // any content at all behind a section header that is followed by another section
        let (k, n) = (param(0) as usize, param(1) as usize);
        let mut one = section(k, 0, 0, 0);
        let len = one.len().max(12);
        one.truncate(12);
        raw(&mut one, n, "content");
        let total = one.len() as u32;
        put32(&mut one, 8, total);
        if k == 2 && n >= 52 { no_lone_terminator(&one, 60); }
        let b = file(0, &[one, neighbour()]);
        let _ = len;
        if accepts(&b) { reach("opt:accepted"); } else { reach("opt:rejected"); }
    }
}
