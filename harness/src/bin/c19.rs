#![no_main]
//! C19: length-prefixed text fields of analysis files.
use binrw::NullWideString;
use harness::anlz::*;
use harness::*;
use rekordcrate::anlz::*;

type Wide = LenPrefixedWideString;
fn encoded(t: &str) -> Vec<u8> {
    let mut v = Vec::new();
    for u in t.encode_utf16() { v.extend_from_slice(&u.to_be_bytes()); }
    v
}
fn comment(t: &str) {
    let c = Wide::from(t);
    let w = match wr_be(&c) { Ok(w) => w, Err(_) => { check(false, "every text can be written"); return } };
    let body = encoded(t);
    let len = if body.is_empty() { 0 } else { body.len() + 2 };
    check(w.len() == 4 + len && be32(&w, 0) as usize == len && c.byte_len() as usize == len, "the length prefix counts the text and its terminator");
    if len > 0 && w.len() == 4 + len { check(same(&w[4..4 + body.len()], &body) && w[4 + body.len()] == 0 && w[5 + body.len()] == 0, "text is stored as big-endian UTF-16 with a terminator"); }
    match rd_be::<Wide>(&w) {
        Ok((d, n)) => { check(n == w.len(), "the declared length is consumed"); check(same(d.0.as_bytes(), t.as_bytes()), "the text survives"); reach("text"); }
        Err(_) => check(false, "a written text is read"),
    }
}

harnesses! {
    fn h_text() { comment(&text(param(0) as usize, param(1), "char")); }
    fn h_ascii() { comment(&ascii(param(0) as usize, "char")); }
    fn h_long() { comment(&long_ascii(param(0) as usize, param(1) as usize, "char")); }
    fn h_bytes() {
        // any declared length over n arbitrary bytes
        let n = param(0) as usize;
        let mut b = vec(4 + n, "bytes");
        if param(1) > 0 { put32(&mut b, 0, param(1) as u32 - 1); }
        let len = be32(&b, 0) as usize;
        assume(len != 2);
        match rd_be::<Wide>(&b) {
            Ok((c, used)) => {
                check(len <= n && len % 2 == 0, "a length that is odd or too large is an error");
                check(used == 4 + len, "exactly the declared length is consumed");
                check(len == 0 || (len <= n && b[len + 2] == 0 && b[len + 3] == 0), "a missing terminator is an error");
                check(match wr_be(&c) { Ok(w) => w.len() == used && same(&w, &b[..used]), Err(_) => false }, "a comment is written unchanged");
                check(c.byte_len() as usize == len, "the encoded length is the declared one");
                reach("read");
            }
            Err(_) => {
                if len <= n && len % 2 == 0 && len > 0 && b[len + 2] == 0 && b[len + 3] == 0 {
                    // only text that is not UTF-16 may be refused
                    let mut u = Vec::new();
                    for i in 0..len / 2 - 1 { u.push(be16(&b, 4 + 2 * i)); }
                    check(char::decode_utf16(u).any(|r| r.is_err()), "every terminated UTF-16 text is read");
                    reach("opt:invalid");
                }
                check(len != 0, "an empty comment is read");
                reach("rejected");
            }
        }
    }
    fn h_lone_terminator() {
        let b = [0u8, 0, 0, 2, 0, 0];
        match rd_be::<Wide>(&b) {
            Ok((c, used)) => { check(used == 6 && c.0.is_empty(), "a lone terminator is an empty text"); check(match wr_be(&c) { Ok(w) => same(&w, &b), Err(_) => false }, "a lone terminator is written unchanged"); reach("read"); }
            Err(_) => check(false, "a lone terminator is read"),
        }
    }
    fn h_path() {
        // a path made by the user
        let t = text(param(0) as usize, param(1), "char");
        for b in t.as_bytes() { assume(*b != 0); }
        let body = encoded(&t);
        let p = Path { path: NullWideString::from(t.as_str()) };
        let w = match wr_be(&p) { Ok(w) => w, Err(_) => { check(false, "every path can be written"); return } };
        check(w.len() == body.len() + 6 && be32(&w, 0) as usize == body.len() + 2, "the path length counts the terminator");
        if w.len() == body.len() + 6 { check(same(&w[4..4 + body.len()], &body) && w[4 + body.len()] == 0 && w[5 + body.len()] == 0, "a path is stored as big-endian UTF-16 with a terminator"); }
        let mut s = b"PPTH".to_vec();
        b32(&mut s, 16); b32(&mut s, 12 + w.len() as u32);
        s.extend_from_slice(&w);
        match rd_be::<Section>(&s) {
            Ok((x, n)) => {
                check(n == s.len(), "the path is consumed");
                match &x.content { Content::Path(q) => { check(q.path.to_string().as_bytes().len() == t.len() && same(q.path.to_string().as_bytes(), t.as_bytes()), "the path text survives"); reach("path"); } _ => check(false, "a path is read as one") }
            }
            Err(_) => check(false, "a written path is read"),
        }
    }
    fn h_path_bytes() {
        // any declared length and any content of a path section
        let n = param(0) as usize;
        let mut s = b"PPTH".to_vec();
        b32(&mut s, 16); b32(&mut s, 16 + n as u32);
        raw(&mut s, 4 + n, "bytes");
        s.extend_from_slice(&[0, 0]); // a neighbour that looks like a terminator
        let len = be32(&s, 12) as usize;
        let mut nul = None;
        for i in (0..n / 2).rev() { if be16(&s, 16 + 2 * i) == 0 { nul = Some(i); } }
        match rd_be::<Section>(&s) {
            Ok((x, used)) => {
                check(len == n && n % 2 == 0 && nul == Some(n / 2 - 1), "a path that does not fill its section is an error");
                check(used == 16 + n && match wr_be(&x) { Ok(w) => same(&w, &s[..used]), Err(_) => false }, "a path is written unchanged");
                reach("opt:read");
            }
            Err(_) => { check(!(len == n && n % 2 == 0 && n > 0 && nul == Some(n / 2 - 1)), "a path that fills its section is read"); reach("rejected"); }
        }
    }
    fn h_cue() {
        // a comment inside an extended cue, set by the user
        let t = text(param(0) as usize, param(1), "char");
        let tr = param(2) as usize;
        let b = section(2, 1, 2, tr);
        let Ok((s, _)) = rd_be::<Section>(&b) else { check(false, "a section is read"); return };
        let mut s = s;
        let Content::ExtendedCueList(l) = &mut s.content else { check(false, "a cue list is read"); return };
        let old = l.cues[0].comment.byte_len();
        l.cues[0].comment = Wide::from(t.clone());
        let new = l.cues[0].comment.byte_len();
        l.cues[0].header.total_size = l.cues[0].header.total_size - old + new;
        s.header.total_size = s.header.total_size - old + new;
        let Ok(w) = wr_be(&s) else { check(false, "an edited cue can be written"); return };
        match rd_be::<Section>(&w) {
            Ok((r, n)) => {
                check(n == w.len() && r == s, "an edited cue list reads as it was written");
                if let Content::ExtendedCueList(m) = &r.content { check(m.cues.len() == 1 && same(m.cues[0].comment.as_bytes(), t.as_bytes()) && m.cues[0].trailing.len() == tr && same(&m.cues[0].trailing, &b[b.len() - tr..]), "comment and trailing data survive"); }
                reach("cue");
            }
            Err(_) => check(false, "an edited cue list is read"),
        }
    }
}
