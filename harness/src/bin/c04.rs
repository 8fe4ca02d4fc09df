#![no_main]
//! C04: offset arrays.
use binrw::{BinRead, BinWrite, io::{Cursor, Seek, SeekFrom}};
use harness::*;
use rekordcrate::pdb::offset_array::{OffsetArrayContainer, OffsetArrayItems, OffsetSize};
use rekordcrate::pdb::string::DeviceSQLString;
use rekordcrate::util::MaybeCalculated;

#[derive(Debug, PartialEq, Clone)]
struct Items<T, const N: usize>([T; N]);
impl<T, const N: usize> OffsetArrayItems<N> for Items<T, N> {
    type Item = T;
    fn as_items(&self) -> [&T; N] { self.0.each_ref() }
    fn from_items(items: [T; N]) -> Self { Items(items) }
}
type Strings<const N: usize> = OffsetArrayContainer<Items<DeviceSQLString, N>, N>;
type Words<const N: usize> = OffsetArrayContainer<Items<u16, N>, N>;
type Bytes<const N: usize> = OffsetArrayContainer<Items<u8, N>, N>;

fn size(wide: u64) -> OffsetSize { if wide == 1 { OffsetSize::U16 } else { OffsetSize::U8 } }
fn offset_at(w: &[u8], at: usize, wide: u64) -> usize {
    if wide == 1 { w[at] as usize | (w[at + 1] as usize) << 8 } else { w[at] as usize }
}
/// `w`: written row; table at `table`, row base at `base`; `enc`: encodings of the items, in order.
fn layout<const N: usize>(w: &[u8], base: usize, table: usize, wide: u64, enc: &[Vec<u8>; N], align: &[bool; N]) -> bool {
    let width = 1 + wide as usize;
    let mut ok = true;
    ok &= offset_at(w, table, wide) == 3;
    let mut end = table + (N + 1) * width - base;
    for i in 0..N {
        let o = offset_at(w, table + (i + 1) * width, wide);
        let want = if align[i] { (end + 3) / 4 * 4 } else { end };
        check(o == want, "recorded offset is the item's distance from the row start");
        for p in end..want { ok &= w[base + p] == 0; }
        check(base + want + enc[i].len() <= w.len(), "item inside what was written");
        if base + want + enc[i].len() > w.len() { return false; }
        check(same(&w[base + want..base + want + enc[i].len()], &enc[i]), "item stored at its offset");
        end = want + enc[i].len();
    }
    check(base + end == w.len(), "nothing after the last item");
    ok
}
fn wide_string(s: &[u8]) -> bool { s.len() >= 4 && s[0] == 0x90 && !(s.len() == 18 && s[4] == 3) }

fn calculated<const N: usize>(strings: [DeviceSQLString; N], wide: u64, base: u64, off: u64) {
    let enc: [Vec<u8>; N] = strings.each_ref().map(|s| match wr(s) { Ok(w) => w, Err(_) => Vec::new() });
    let al: [bool; N] = enc.each_ref().map(|e| wide_string(e));
    let c: Strings<N> = OffsetArrayContainer { offsets: MaybeCalculated::Calculated, inner: Items(strings) };
    let start = base + off;
    let mut cur = Cursor::new(vec![0xA5u8; start as usize]);
    let _ = cur.seek(SeekFrom::Start(start));
    let r = c.write_le_args(&mut cur, (off, size(wide), ()));
    let total: usize = enc.iter().map(|e| e.len() + 3).sum::<usize>() + start as usize + (N + 1) * 2;
    let limit = if wide == 1 { 65535 } else { 255 };
    let w = match r {
        Ok(()) => cur.into_inner(),
        Err(_) => { check(total > limit, "offsets that fit are accepted"); reach("opt:overflow"); return; }
    };
    observe(1, &w);
    for b in &w[..start as usize] { check(*b == 0xA5, "bytes before the array untouched"); }
    check(layout(&w, base as usize, start as usize, wide, &enc, &al), "marker and padding bytes");
    let mut cur = Cursor::new(w);
    let _ = cur.seek(SeekFrom::Start(start));
    let r = Strings::<N>::read_le_args(&mut cur, (off, size(wide), ()));
    check(r.is_ok(), "computed array can be read back");
    if let Ok(r) = r {
        check(r.inner == c.inner, "items read back equal");
        // reading keeps the offsets: writing again gives the same bytes
        let img = cur.into_inner();
        let mut out = Cursor::new(img[..start as usize].to_vec());
        let _ = out.seek(SeekFrom::Start(start));
        let r2 = r.write_le_args(&mut out, (off, size(wide), ()));
        check(r2.is_ok(), "read array can be written");
        let out = out.into_inner();
        check(out.len() == img.len() && same(&out, &img), "kept offsets reproduce the bytes");
    }
    reach("done");
}

/// read `N` items at offsets found in an arbitrary image, write them over an image of zeros
fn provided<T, const N: usize>(img: Vec<u8>, at: usize, off: u64, wide: u64, len: usize, same_item: impl Fn(&T, &[u8]) -> bool)
where T: for<'a> BinRead<Args<'a> = ()> + for<'a> BinWrite<Args<'a> = ()> + rekordcrate::pdb::offset_array::OffsetArrayItemAlignment + Clone + PartialEq + 'static {
    let width = 1 + wide as usize;
    let base = at - off as usize;
    let mut cur = Cursor::new(img.clone());
    let _ = cur.seek(SeekFrom::Start(at as u64));
    let r = OffsetArrayContainer::<Items<T, N>, N>::read_le_args(&mut cur, (off, size(wide), ()));
    let marker = offset_at(&img, at, wide) == 3;
    let mut pos = [0usize; N];
    let mut fits = true;
    for i in 0..N { pos[i] = base + offset_at(&img, at + (i + 1) * width, wide); fits &= pos[i] + len <= img.len(); }
    let r = match r { Ok(r) => r, Err(_) => { check(!(marker & fits), "array inside the data is read"); reach("rejected"); return; } };
    check(marker, "wrong marker is rejected");
    check(fits, "items past the end are rejected");
    for i in 0..N {
        let p = fork(pos[i] as u64) as usize;
        if p + len <= img.len() { check(same_item(&r.inner.0[i], &img[p..p + len]), "item comes from its offset"); }
    }
    let mut out = Cursor::new(vec![0u8; img.len()]);
    let _ = out.seek(SeekFrom::Start(at as u64));
    let w = r.write_le_args(&mut out, (off, size(wide), ()));
    check(w.is_ok(), "read array can be written");
    let out = out.into_inner();
    check(same(&out[at..at + (N + 1) * width], &img[at..at + (N + 1) * width]) || overlaps(&pos, len, at, (N + 1) * width), "offset table reproduced");
    for i in 0..N {
        let p = fork(pos[i] as u64) as usize;
        if p + len <= img.len() { check(same(&out[p..p + len], &img[p..p + len]), "items written at the same positions"); }
    }
    check(out.len() == img.len(), "nothing written past the items");
    reach("done");
}
fn overlaps(pos: &[usize], len: usize, at: usize, n: usize) -> bool {
    let mut r = false;
    for p in pos { r |= (*p < at + n) & (at < *p + len); }
    r
}

harnesses! {
    // params: wide, row base, table offset, max character class
    fn h_two() {
        let a = text(choose(3, "n") as usize, param(3), "first");
        let b = text(choose(2, "n") as usize, param(3), "second");
        let s = [a, b].map(|t| DeviceSQLString::new(&t).unwrap_or_default());
        calculated::<2>(s, param(0), param(1), param(2));
    }
    // one string of `param 3` ASCII characters before another of `param 4`
    fn h_far() {
        let a = ascii(param(3) as usize, "first");
        let b = ascii(param(4) as usize, "second");
        let s = [a, b].map(|t| DeviceSQLString::new(&t).unwrap_or_default());
        calculated::<2>(s, param(0), param(1), param(2));
    }
    // three items; the middle one of wide characters
    fn h_three() {
        let a = ascii(param(3) as usize, "first");
        let mut m = Vec::new();
        for _ in 0..param(4) { push_char(&mut m, 3, "wide"); }
        let m = unsafe { String::from_utf8_unchecked(m) };
        let b = ascii(param(5) as usize, "last");
        let s = [a, m, b].map(|t| DeviceSQLString::new(&t).unwrap_or_default());
        calculated::<3>(s, param(0), param(1), param(2));
    }
    // computed offsets at the limit of the width: bytes stored `param 1` behind the row start
    fn h_limit() {
        let (wide, off) = (param(0), param(1) + choose(param(2), "distance"));
        let limit = if wide == 1 { 65535 } else { 255 };
        let items: [u8; 3] = bytes("items");
        let c: Bytes<3> = OffsetArrayContainer { offsets: MaybeCalculated::Calculated, inner: Items(items) };
        let mut cur = Cursor::new(vec![0u8; off as usize]);
        let _ = cur.seek(SeekFrom::Start(off));
        let r = c.write_le_args(&mut cur, (off, size(wide), ()));
        let last = off + 4 * (1 + wide) + 2;
        check(r.is_ok() == (last <= limit), "accepted exactly when the last offset fits the width");
        if r.is_ok() {
            let w = cur.into_inner();
            for i in 0..3 {
                let o = offset_at(&w, off as usize + (i + 1) * (1 + wide as usize), wide);
                check(o < w.len(), "offset inside the row");
                if o < w.len() { check(w[o] == items[i], "item where the offset says"); }
            }
            reach("opt:fits");
        } else { reach("opt:does not fit"); }
    }
    fn h_words() {
        let wide = param(0);
        let img = vec(param(1) as usize, "image");
        provided::<u16, 2>(img, param(2) as usize, param(3), wide, 2, |v, b| *v == u16::from_le_bytes([b[0], b[1]]));
    }
    fn h_bytes() {
        let wide = param(0);
        let img = vec(param(1) as usize, "image");
        provided::<u8, 3>(img, param(2) as usize, param(3), wide, 1, |v, b| *v == b[0]);
    }
    // the stream position, base distance and width are arbitrary
    fn h_base() {
        let off = u64v("distance");
        let start = param(0);
        let wide = choose(2, "width");
        let w: Words<1> = OffsetArrayContainer { offsets: MaybeCalculated::Calculated, inner: Items([u16v("item")]) };
        let mut cur = Cursor::new(vec![0u8; start as usize]);
        let _ = cur.seek(SeekFrom::Start(start));
        let r = w.write_le_args(&mut cur, (off, size(wide), ()));
        check(r.is_ok() == (off <= start), "a row start before the stream start is an error (write)");
        if r.is_ok() {
            let mut cur = Cursor::new(cur.into_inner());
            let _ = cur.seek(SeekFrom::Start(start));
            let b = Words::<1>::read_le_args(&mut cur, (off, size(wide), ()));
            check(b.is_ok(), "read back");
            if let Ok(b) = b { check(b.inner == w.inner, "read back equal"); }
            reach("ok");
        } else {
            let mut cur = Cursor::new(vec![3u8, 0, 0, 0]);
            check(Words::<1>::read_le_args(&mut cur, (1, size(wide), ())).is_err(), "a row start before the stream start is an error (read)");
            reach("before");
        }
    }
    // offsets of one width never written as the other
    fn h_mismatch() {
        let o: [u8; 2] = bytes("offsets");
        let c: Bytes<2> = OffsetArrayContainer { offsets: MaybeCalculated::Provided(o.into()), inner: Items(bytes("items")) };
        let mut cur = Cursor::new(Vec::new());
        check(c.write_le_args(&mut cur, (0, OffsetSize::U16, ())).is_err(), "narrow offsets are not written as wide");
        let o: [u16; 2] = [u16v("a"), u16v("b")];
        let c: Bytes<2> = OffsetArrayContainer { offsets: MaybeCalculated::Provided(o.into()), inner: Items(bytes("items")) };
        let mut cur = Cursor::new(Vec::new());
        check(c.write_le_args(&mut cur, (0, OffsetSize::U8, ())).is_err(), "wide offsets are not written as narrow");
        reach("mismatch");
    }
}
