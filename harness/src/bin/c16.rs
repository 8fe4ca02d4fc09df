#![no_main]
//! C16: every section kind of an analysis file round-trips, with every field where it belongs.
use harness::anlz::*;
use harness::*;
use rekordcrate::anlz::*;
use rekordcrate::util::ColorIndex;

fn read(b: &[u8]) -> Option<Section> {
    match rd_be::<Section>(b) {
        Ok((s, n)) => { check(n == b.len(), "a well-formed section is consumed exactly"); Some(s) }
        Err(_) => { check(false, "a well-formed section is read"); None }
    }
}
fn cycle(b: &[u8]) {
    let s = match read(b) { Some(s) => s, None => return };
    let w = match wr_be(&s) { Ok(w) => w, Err(_) => { check(false, "a section that was read can be written"); return } };
    check(same(&w, b), "a section is written unchanged");
    check(match rd_be::<Section>(&w) { Ok((t, _)) => t == s, Err(_) => false }, "the written section reads as an equal one");
    reach("section");
}
fn kind_code(k: &ContentKind) -> Option<usize> {
    use ContentKind::*;
    Some(match k { File => 0, BeatGrid => 1, CueList => 2, ExtendedCueList => 3, ExtendedCue => 4, Cue => 5, Path => 6, VBR => 7, WaveformPreview => 8, TinyWaveformPreview => 9, WaveformDetail => 10, WaveformColorPreview => 11, WaveformColorDetail => 12, Waveform3BandPreview => 13, Waveform3BandDetail => 14, SongStructure => 15, Unknown(_) => return None })
}
fn color_code(c: &ColorIndex) -> u8 {
    use ColorIndex::*;
    match c { None => 0, Pink => 1, Red => 2, Orange => 3, Yellow => 4, Green => 5, Aqua => 6, Blue => 7, Purple => 8 }
}
fn type_code(c: &CueType) -> u8 { match c { CueType::Point => 1, CueType::Loop => 2 } }
fn list_code(c: &CueListType) -> u32 { match c { CueListType::MemoryCues => 0, CueListType::HotCues => 1 } }

harnesses! {
    fn h_section() { cycle(&section(param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize)); }
    fn h_kind() {
        // any four-byte tag
        let b = bytes::<4>("kind");
        let (k, n) = match rd_be::<ContentKind>(&b) { Ok(k) => k, Err(_) => { check(false, "every tag is read"); return } };
        check(n == 4, "a tag has four bytes");
        check(match wr_be(&k) { Ok(w) => same(&w, &b), Err(_) => false }, "a tag is written unchanged");
        match kind_code(&k) {
            Some(i) => { check(b == *ALL[i], "a known tag names its kind"); reach("known"); }
            None => {
                let mut other = true;
                for a in ALL { other &= b != *a; }
                check(other, "only undocumented tags are unknown");
                reach("unknown");
            }
        }
    }
    fn h_header() {
        let (k, size, total) = (param(0) as usize, u32v("size"), u32v("total"));
        let mut v = ALL[k].to_vec();
        b32(&mut v, size); b32(&mut v, total);
        match rd_be::<Header>(&v) {
            Ok((h, n)) => {
                check(n == 12 && h.size == size && h.total_size == total && kind_code(&h.kind) == Some(k), "header fields are read from their places");
                check(size >= 12 && total >= size, "contradicting sizes are rejected");
                check(match wr_be(&h) { Ok(w) => same(&w, &v), Err(_) => false }, "a header is written unchanged");
                reach("read");
            }
            Err(_) => { check(size < 12 || total < size, "consistent sizes are accepted"); reach("rejected"); }
        }
    }
    fn h_beats() {
        let n = param(0) as usize;
        let b = section(0, n, 0, 0);
        let Some(s) = read(&b) else { return };
        let Content::BeatGrid(g) = &s.content else { check(false, "a beat grid is read as one"); return };
        check(g.beats.len() == n, "every beat is read");
        for (i, t) in g.beats.iter().enumerate() {
            let p = 24 + 8 * i;
            check(t.beat_number == be16(&b, p) && t.tempo == be16(&b, p + 2) && t.time == be32(&b, p + 4), "beat fields are read from their places");
        }
        reach("beats");
    }
    fn h_cues() {
        let n = param(0) as usize;
        let b = section(1, n, 0, 0);
        let Some(s) = read(&b) else { return };
        let Content::CueList(l) = &s.content else { check(false, "a cue list is read as one"); return };
        check(l.cues.len() == n && list_code(&l.list_type) == be32(&b, 12), "every cue is read, with the list type");
        for (i, c) in l.cues.iter().enumerate() {
            let p = 24 + 56 * i;
            check(c.header.size == 28 && c.header.total_size == 56 && c.header.kind == ContentKind::Cue, "cue headers are read");
            check(c.hot_cue == be32(&b, p + 12) && c.status == be32(&b, p + 16) && c.order_first == be16(&b, p + 24) && c.order_last == be16(&b, p + 26), "cue numbers are read from their places");
            check(type_code(&c.cue_type) == b[p + 28] && c.time == be32(&b, p + 32) && c.loop_time == be32(&b, p + 36), "cue times are read from their places");
        }
        reach("cues");
    }
    fn h_xcues() {
        let (n, c, t) = (param(0) as usize, param(1) as usize, param(2) as usize);
        let b = section(2, n, c, t);
        let Some(s) = read(&b) else { return };
        let Content::ExtendedCueList(l) = &s.content else { check(false, "an extended cue list is read as one"); return };
        check(l.cues.len() == n && list_code(&l.list_type) == be32(&b, 12), "every extended cue is read, with the list type");
        let mut p = 20;
        for q in l.cues.iter() {
            let len = be32(&b, p + 40) as usize;
            check(q.header.size == 16 && q.header.total_size as usize == 68 + len + t && q.header.kind == ContentKind::ExtendedCue, "extended cue headers are read");
            check(q.hot_cue == be32(&b, p + 12) && type_code(&q.cue_type) == b[p + 16] && q.time == be32(&b, p + 20) && q.loop_time == be32(&b, p + 24), "extended cue times are read from their places");
            check(color_code(&q.color) == b[p + 28] && q.loop_numerator == be16(&b, p + 36) && q.loop_denominator == be16(&b, p + 38), "extended cue color and loop size are read from their places");
            let r = p + 44 + len;
            check(q.hot_cue_color_index == b[r] && q.hot_cue_color_rgb == (b[r + 1], b[r + 2], b[r + 3]), "hot cue colors are read from their places");
            check(q.trailing.len() == t && same(&q.trailing, &b[r + 24..r + 24 + t]), "trailing bytes are kept");
            p = r + 24 + t;
        }
        reach("xcues");
    }
    fn h_wave() {
        let (k, n) = (param(0) as usize, param(1) as usize);
        let b = section(k, n, 0, 0);
        let Some(s) = read(&b) else { return };
        let d = &b[HEAD[k]..];
        let mut ok = true;
        let count = match &s.content {
            Content::WaveformPreview(w) => { for (i, c) in w.data.iter().enumerate() { ok &= (c.height() == d[i] & 31) & (c.whiteness() == d[i] >> 5); } w.data.len() }
            Content::WaveformDetail(w) => { for (i, c) in w.data.iter().enumerate() { ok &= (c.height() == d[i] & 31) & (c.whiteness() == d[i] >> 5); } w.data.len() }
            Content::TinyWaveformPreview(w) => { for (i, c) in w.data.iter().enumerate() { ok &= c.height() == d[i] >> 4; } w.data.len() }
            Content::WaveformColorPreview(w) => {
                for (i, c) in w.data.iter().enumerate() { let e = &d[6 * i..]; ok &= (c.energy_bottom_half_freq == e[2]) & (c.energy_bottom_third_freq == e[3]) & (c.energy_mid_third_freq == e[4]) & (c.energy_top_third_freq == e[5]); }
                w.data.len()
            }
            Content::WaveformColorDetail(w) => {
                for (i, c) in w.data.iter().enumerate() {
                    let x = d[2 * i] as u16 | (d[2 * i + 1] as u16) << 8;
                    ok &= (c.red() as u16 == x & 7) & (c.green() as u16 == x >> 3 & 7) & (c.blue() as u16 == x >> 6 & 7) & (c.height() as u16 == x >> 9 & 31);
                }
                w.data.len()
            }
            Content::Waveform3BandPreview(w) => { for (i, c) in w.data.iter().enumerate() { let e = &d[3 * i..]; ok &= (c.energy_mid_third_freq == e[0]) & (c.energy_top_third_freq == e[1]) & (c.energy_bottom_third_freq == e[2]); } w.data.len() }
            Content::Waveform3BandDetail(w) => { for (i, c) in w.data.iter().enumerate() { let e = &d[3 * i..]; ok &= (c.energy_mid_third_freq == e[0]) & (c.energy_top_third_freq == e[1]) & (c.energy_bottom_third_freq == e[2]); } w.data.len() }
            _ => { check(false, "a waveform is read as the kind its tag names"); return }
        };
        check(count == n, "every waveform column is read");
        check(ok, "waveform columns hold the bits of their bytes");
        reach("wave");
    }
    fn h_edit_wave() {
        // one component of a packed column is changed, the others stay
        let b = bytes::<1>("column");
        let Ok((mut c, _)) = rd_be::<WaveformPreviewColumn>(&b) else { check(false, "every column is read"); return };
        let v = u8v("value");
        assume(v < 8);
        c.set_whiteness(v);
        check(c.height() == b[0] & 31 && match wr_be(&c) { Ok(w) => same(&w, &[b[0] & 31 | v << 5]), Err(_) => false }, "changing the shade keeps the height");
        c.set_height(v);
        check(match wr_be(&c) { Ok(w) => same(&w, &[v | v << 5]), Err(_) => false }, "changing the height keeps the shade");
        let b = bytes::<2>("color");
        let Ok((mut c, _)) = rd_be::<WaveformColorDetailColumn>(&b) else { check(false, "every color column is read"); return };
        let x = u16::from_le_bytes(b);
        c.set_blue(v);
        check(match wr_be(&c) { Ok(w) => same(&w, &(x & !0x1c0 | (v as u16) << 6).to_le_bytes()), Err(_) => false }, "changing one color keeps the other bits");
        c.set_height(v);
        check(match wr_be(&c) { Ok(w) => same(&w, &(x & !0x3fc0 | (v as u16) << 6 | (v as u16) << 9).to_le_bytes()), Err(_) => false }, "changing the color height keeps the other bits");
        let b = bytes::<1>("tiny");
        let Ok((mut c, _)) = rd_be::<TinyWaveformPreviewColumn>(&b) else { check(false, "every tiny column is read"); return };
        c.set_height(v);
        check(match wr_be(&c) { Ok(w) => same(&w, &[b[0] & 15 | v << 4]), Err(_) => false }, "changing the tiny height keeps the unused bits");
        reach("edit");
    }
    fn h_path() {
        let n = param(0) as usize;
        let b = section(3, n, 0, 0);
        let Some(s) = read(&b) else { return };
        let Content::Path(p) = &s.content else { check(false, "a path is read as one"); return };
        check(p.path.len() == n, "the whole path is read");
        let mut ok = true;
        for i in 0..n { ok &= p.path.0[i] == be16(&b, 16 + 2 * i); }
        check(ok, "path units are read from their places");
        reach("path");
    }
    fn h_invalid() {
        // an enum field outside its documented values, a wrong entry size or marker is an error
        let w = param(0);
        let (k, p, len) = [(1, 12, 4), (2, 12, 4), (1, 24 + 28, 1), (2, 20 + 16, 1), (2, 20 + 28, 1), (2, 18, 2), (7, 12, 4), (8, 12, 4), (9, 12, 4), (10, 12, 4), (11, 12, 4), (7, 20, 4), (11, 20, 4), (12, 12, 4), (12, 30, 1)][w as usize];
        let mut b = section(k, 1, 0, 0);
        let q = vec(len, "field");
        b[p..p + len].copy_from_slice(&q);
        let mut x = 0u32;
        for i in 0..len { x = x << 8 | q[i] as u32; }
        let valid = match w { 0 | 1 => x < 2, 2 | 3 => x == 1 || x == 2, 4 | 14 => x < 9, 5 => x == 0, 6 => x == 1, 7 => x == 6, 8 => x == 2, 9 | 10 => x == 3, 11 | 12 => x == 0x00960000, _ => x == 24 };
        match rd_be::<Section>(&b) {
            Ok(_) => { check(valid, "an undocumented value is an error"); reach("valid"); }
            Err(_) => { check(!valid, "a documented value is accepted"); reach("invalid"); }
        }
    }
}
