#![no_main]
//! C24: invalid setting files are errors, never panics.
use harness::settings::*;
use harness::*;
use rekordcrate::setting::*;

fn read(k: usize, b: &[u8]) -> Option<Setting> {
    match rda::<Setting, _>(b, (TYPES[k],)) {
        Ok((s, n)) => { check(n <= b.len(), "no more is consumed than there is"); check(wra(&s, (false,)).is_ok(), "a setting that was read can be written"); Some(s) }
        Err(_) => None,
    }
}

harnesses! {
    fn h_option() {
        // any byte in an option's place
        let (k, i) = (param(0) as usize, param(1) as usize);
        let mut b = file(k);
        let x = u8v("option");
        b[HEAD + AT[k][i]] = x;
        match read(k, &b) {
            Some(s) => { check(valid(k, i, x), "an undocumented option byte is an error"); check(code(&s.data, i) == x, "an option byte means its documented option"); reach("valid"); }
            None => { check(!valid(k, i, x), "every documented option byte is accepted"); reach("invalid"); }
        }
    }
    fn h_fixed() {
        // any bytes in place of a fixed field
        let (k, at) = (param(0) as usize, param(1) as usize);
        let mut b = file(k);
        let x = u8v("byte");
        b[HEAD + FIXED[k][at].0] = x;
        check(read(k, &b).is_some() == (x == FIXED[k][at].1), "a wrong marker is an error");
        reach("fixed");
    }
    fn h_lengths() {
        let k = param(0) as usize;
        let mut b = file(k);
        let (x, y, z) = (bytes::<4>("len_strings"), bytes::<4>("len_data"), bytes::<2>("unknown"));
        b[..4].copy_from_slice(&x);
        b[100..104].copy_from_slice(&y);
        let n = b.len();
        b[n - 2..].copy_from_slice(&z);
        let ok = u32::from_le_bytes(x) == 0x60 && u32::from_le_bytes(y) as usize == SIZE[k] && z == [0, 0];
        check(read(k, &b).is_some() == ok, "wrong lengths are errors");
        reach("lengths");
    }
    fn h_kind() {
        // a file of another kind
        let (k, j) = (param(0) as usize, param(1) as usize);
        let mut b = file(k);
        let y = u32v("len_data");
        b[100..104].copy_from_slice(&y.to_le_bytes());
        check(read(j, &b).is_none(), "a file of another kind is an error");
        reach("kind");
    }
    fn h_text() {
        // any bytes in a text's place
        let (k, i) = (param(0) as usize, param(1) as usize);
        let mut b = file(k);
        let t = bytes::<32>("text");
        b[4 + 32 * i..36 + 32 * i].copy_from_slice(&t);
        let mut nul = false;
        for c in t { nul |= c == 0; }
        match read(k, &b) {
            Some(s) => { check(nul, "a text without end is an error"); let l = [&s.brand, &s.software, &s.version][i].len(); check(l < 32 && t[l] == 0, "a text ends at its terminator"); reach("text"); }
            None => { check(!nul, "every terminated text is accepted"); reach("endless"); }
        }
    }
    fn h_data() {
        // any data at all
        let k = param(0) as usize;
        let mut b = file(k);
        let (p, n) = (param(1) as usize, param(2) as usize);
        for i in p..(p + n).min(SIZE[k]) { b[HEAD + i] = u8v("data"); }
        match read(k, &b) {
            Some(s) => {
                let mut ok = true;
                for i in 0..OPTIONS[k] { ok &= valid(k, i, b[HEAD + AT[k][i]]) & (code(&s.data, i) == b[HEAD + AT[k][i]]); }
                for (p, x) in FIXED[k] { ok &= b[HEAD + p] == *x; }
                check(ok, "only valid data is accepted");
                reach("accepted");
            }
            None => reach("rejected"),
        }
    }
    fn h_short() {
        let k = param(0) as usize;
        let b = file(k);
        let c = u32v("cut") as usize;
        assume(c < b.len());
        let c = fork(c as u64) as usize;
        check(read(k, &b[..c]).is_none(), "a truncated file is an error");
        reach("short");
    }
    fn h_bytes() {
        // arbitrary bytes from a position on, and the file ends after them
        let (k, at, n) = (param(0) as usize, param(1) as usize, param(2) as usize);
        let mut b = file(k)[..at].to_vec();
        for _ in 0..n { b.push(u8v("byte")); }
        if at + n >= HEAD + SIZE[k] + 4 { return; }
        check(read(k, &b).is_none(), "bytes that end too early are an error");
        reach("bytes");
    }
    fn h_long() {
        // texts that do not fit
        let (k, i, n) = (param(0) as usize, param(1) as usize, param(2) as usize);
        let Ok((mut s, _)) = rda::<Setting, _>(&file(k), (TYPES[k],)) else { check(false, "a valid setting file is read"); return };
        let t = binrw::NullString(vec(n, "text"));
        match i { 0 => s.brand = t, 1 => s.software = t, _ => s.version = t }
        match wra(&s, (false,)) {
            Ok(w) => { check(n <= 31 && w.len() == HEAD + SIZE[k] + 4, "a text that does not fit is an error"); reach("opt:fits"); }
            Err(_) => { check(n > 31, "every text that fits is written"); reach("opt:rejected"); }
        }
    }
}
