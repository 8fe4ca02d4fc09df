#![no_main]
//! C23: the checksum is recomputed on writing and covers the documented bytes.
use harness::settings::*;
use harness::*;
use rekordcrate::setting::*;

fn carries(k: usize, s: &Setting) {
    match wra(s, (false,)) {
        Ok(w) => {
            check(w.len() == HEAD + SIZE[k] + 4, "a written file has its documented size");
            if w.len() != HEAD + SIZE[k] + 4 { return; }
            let c = expected_crc(k, &w);
            check(w[HEAD + SIZE[k]] == c as u8 && w[HEAD + SIZE[k] + 1] == (c >> 8) as u8, "the checksum covers the documented bytes");
            check(w[HEAD + SIZE[k] + 2] == 0 && w[HEAD + SIZE[k] + 3] == 0, "nothing follows the checksum");
        }
        Err(_) => check(false, "a setting can be written"),
    }
}

harnesses! {
    fn h_oracle() {
        // the oracle's checksum: the standard check value, and the bit by bit definition at any 4 consecutive bytes
        check(crc(b"123456789") == 0x31c3 && crc_bits(b"123456789") == 0x31c3, "the oracle computes CRC-16/XMODEM");
        let mut b = *b"some text of sixteen";
        let p = param(0) as usize;
        let n = param(1) as usize;
        for i in 0..n { b[p + i] = u8v("byte"); }
        check(crc(&b) == crc_bits(&b), "the table and the bit by bit definition agree");
    }
    fn h_read() {
        // options, free bytes, texts and the stored checksum are arbitrary
        let (k, from, n, t) = (param(0) as usize, param(1) as usize, param(2) as usize, param(3) as usize);
        let txt = vec(t, "text");
        let mut ok = true;
        for c in &txt { ok &= *c != 0; }
        assume(ok);
        let mut b = if t > 0 { file_with(k, &txt, b"rekordbox", &txt) } else { file(k) };
        vary(&mut b, k, from, n, param(4) == 1);
        if n == 0 { for (p, _) in FREE[k] { b[HEAD + p] = u8v("free"); } }
        let c = bytes::<2>("stored");
        b[HEAD + SIZE[k]] = c[0]; b[HEAD + SIZE[k] + 1] = c[1];
        match rda::<Setting, _>(&b, (TYPES[k],)) { Ok((s, _)) => { carries(k, &s); reach("read"); } Err(_) => check(false, "a valid setting file is read") }
    }
    fn h_edit() {
        // an option edited after reading
        let (k, i) = (param(0) as usize, param(1) as usize);
        let mut b = file(k);
        vary(&mut b, k, 0, 0, param(2) == 1);
        let c = bytes::<2>("stored");
        b[HEAD + SIZE[k]] = c[0]; b[HEAD + SIZE[k] + 1] = c[1];
        let x = u8v("option");
        assume(valid(k, i, x));
        let x = fork(x as u64) as u8;
        match rda::<Setting, _>(&b, (TYPES[k],)) { Ok((mut s, _)) => { set(&mut s.data, i, x); carries(k, &s); reach("edit"); } Err(_) => check(false, "a valid setting file is read") }
    }
    fn h_brand() {
        // a brand edited after reading
        let (k, n) = (param(0) as usize, param(1) as usize);
        let txt = vec(n, "text");
        let mut ok = true;
        for c in &txt { ok &= *c != 0; }
        assume(ok);
        match rda::<Setting, _>(&file(k), (TYPES[k],)) { Ok((mut s, _)) => { s.brand = binrw::NullString(txt); carries(k, &s); reach("brand"); } Err(_) => check(false, "a valid setting file is read") }
    }
}
