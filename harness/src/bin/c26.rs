#![no_main]
//! C26: loading the settings of a device.
use harness::settings::*;
use harness::*;
use rekordcrate::device::{DeviceExportLoader, Settings};
use rekordcrate::setting::SettingType;
#[path = "../fs.rs"]
#[allow(dead_code)]
mod fs;

const NAMES: [&str; 4] = ["DEVSETTING.DAT", "DJMMYSETTING.DAT", "MYSETTING.DAT", "MYSETTING2.DAT"];
fn put(k: usize, b: Vec<u8>) { fs::put(&format!("/dev/PIONEER/{}", NAMES[k]), b); }
fn load() -> Settings {
    let s = DeviceExportLoader::new("/dev".into()).load_settings();
    let mut n = 0;
    for c in fs::log() {
        match c {
            fs::Call::Open(p) => { let mut known = false; for f in NAMES { known |= p == format!("/dev/PIONEER/{}", f).as_bytes(); } check(known, "only the four setting files are read"); n += 1; }
            _ => check(false, "loading settings changes nothing"),
        }
    }
    check(n == 4, "every setting file is looked for once");
    s
}
/// the options of file k are those in `b`, or absent
fn expect(s: &Settings, k: usize, b: Option<&[u8]>) {
    let mut ok = true;
    for i in 0..OPTIONS[k] {
        match (loaded(s, k, i), b) {
            (Some(x), Some(b)) => ok &= x == b[HEAD + AT[k][i]],
            (None, None) => {}
            _ => ok = false,
        }
    }
    match b { Some(_) => check(ok, "every option of a file reaches the field of its name"), None => check(ok, "the options of a missing or unreadable file are absent") }
}
harnesses! {
    // params: set of files present, the file with arbitrary options, first one, how many, base values
    fn h_load() {
        let (mask, k, from, n) = (param(0), param(1) as usize, param(2) as usize, param(3) as usize);
        let mut files = Vec::new();
        for i in 0..4 {
            let mut b = file(i);
            if i == k { vary(&mut b, i, from, n, param(4) == 1); } else { vary(&mut b, i, 0, 0, param(4) == 1); }
            if mask >> i & 1 == 1 { put(i, b.clone()); }
            files.push(b);
        }
        let s = load();
        for i in 0..4 { expect(&s, i, if mask >> i & 1 == 1 { Some(&files[i]) } else { None }); }
        reach("loaded");
    }
    // one file is damaged: a data or head byte arbitrary, or cut; the other files are unaffected; params: file, place, how
    fn h_damaged() {
        let (k, p) = (param(0) as usize, param(1) as usize);
        let mut files = Vec::new();
        for i in 0..4 {
            let mut b = file(i);
            vary(&mut b, i, 0, 0, i % 2 == 0);
            files.push(b);
        }
        let mut b = files[k].clone();
        if param(2) == 0 { b[p] = u8v("byte"); } else { b.truncate(p); }
        for i in 0..4 { put(i, if i == k { b.clone() } else { files[i].clone() }); }
        let s = load();
        for i in 0..4 { if i != k { expect(&s, i, Some(&files[i])); } }
        if loaded(&s, k, 0).is_some() { expect(&s, k, Some(&b)); reach("opt:still read"); } else { expect(&s, k, None); reach("opt:rejected"); }
    }
    // the file system fails at some operation, once or from then on
    fn h_faults() {
        let mut files = Vec::new();
        for i in 0..4 {
            let mut b = file(i);
            vary(&mut b, i, 0, 0, i % 2 == 0);
            put(i, b.clone());
            files.push(b);
        }
        fs::fail_at(u16v("operation"), param(0) == 1);
        let s = DeviceExportLoader::new("/dev".into()).load_settings();
        let mut absent = 0;
        for i in 0..4 {
            if loaded(&s, i, 0).is_some() { expect(&s, i, Some(&files[i])); } else { expect(&s, i, None); absent += 1; }
        }
        if !fs::failed() { check(absent == 0, "every intact file is loaded if nothing fails"); reach("loaded (faults)"); }
        if param(0) == 0 { check(absent <= 1, "a failure that passes costs one file at most"); }
        let mut warnings = 0;
        // a warning may take several lines, and it names the file
        let e = fs::err();
        for f in NAMES {
            let mut named = false;
            for i in 0..e.len() { named |= e[i] == b'/' && e[i + 1..].starts_with(f.as_bytes()); }
            warnings += named as usize;
        }
        check(warnings == absent, "every file that could not be loaded is warned about");
    }
    // a file in the place of another kind of file
    fn h_swapped() {
        let (k, j) = (param(0) as usize, param(1) as usize);
        for i in 0..4 { if i == k { put(i, file(j)); } else { put(i, file(i)); } }
        let s = load();
        for i in 0..4 { if i != k { expect(&s, i, Some(&file(i))); } }
        // files of equal data size cannot be told apart by their size, but their contents differ
        expect(&s, k, None);
        reach("swapped");
    }
    // the listing shows every option behind its label; params: set of files present, file, option
    fn h_shown() {
        let (mask, k, i) = (param(0), param(1) as usize, param(2) as usize);
        let mut files = Vec::new();
        for j in 0..4 {
            let mut b = file(j);
            vary(&mut b, j, i, if j == k { 1 } else { 0 }, i % 2 == 1);
            if j == k { let p = HEAD + AT[j][i]; b[p] = fork(b[p] as u64) as u8; }
            if mask >> j & 1 == 1 { put(j, b.clone()); }
            files.push(b);
        }
        let s = load();
        let t = s.to_string();
        let mut lines = 0;
        for _ in t.lines() { lines += 1; }
        check(lines == 46, "the listing has one line per option");
        for j in 0..4 { for o in 0..OPTIONS[j] {
            let value = if mask >> j & 1 == 1 { shown(j, o, files[j][HEAD + AT[j][o]]) } else { "<missing>" };
            let mut found = 0;
            for l in t.lines() {
                if let Some((label, v)) = l.split_once(':') { if label.trim() == LABELS[j][o] { found += 1; check(v.trim() == value, "the listing shows the option's value behind its label"); } }
            }
            check(found == 1, "every option is listed once");
        } }
        reach("shown");
    }
    // file names: params: name, place of an arbitrary character
    fn h_name() {
        let (k, p) = (param(0) as usize, param(1) as usize);
        let mut n = NAMES[k].as_bytes().to_vec();
        let was = n.get(p).copied();
        if p < n.len() { let c = u8v("char"); assume(c < 0x80); n[p] = c; }
        let t = match std::str::from_utf8(&n) { Ok(t) => t, Err(_) => return };
        let got = SettingType::from_filename(t);
        let exact = match was { Some(c) => n[p] == c, None => true };
        if exact { check(got == Some(TYPES[k]), "the documented names are recognised"); reach("opt:name"); }
        else {
            // a path's last part counts
            let last = t.rsplit('/').next().unwrap_or("");
            let mut want = None;
            for i in 0..4 { if last == NAMES[i] { want = Some(TYPES[i]); } }
            if p + 1 == n.len() && n[p] == b'/' { return; }
            check(got == want, "no other name is recognised");
            reach("opt:other");
        }
    }
    fn h_short_name() {
        let n = vec(param(0) as usize, "char");
        for c in &n { assume(*c < 0x80); }
        let t = match std::str::from_utf8(&n) { Ok(t) => t, Err(_) => return };
        check(SettingType::from_filename(t).is_none(), "no short name is recognised");
        reach("none");
    }
    fn h_prefix() {
        // the documented name with an arbitrary character before or behind it
        let (k, front) = (param(0) as usize, param(1) == 1);
        let c = u8v("char");
        assume(c < 0x80);
        let mut n = Vec::new();
        if front { n.push(c); }
        n.extend_from_slice(NAMES[k].as_bytes());
        if !front { n.push(c); }
        let t = match std::str::from_utf8(&n) { Ok(t) => t, Err(_) => return };
        let got = SettingType::from_filename(t);
        if c == b'/' { check(got == Some(TYPES[k]), "the last part of a path counts"); reach("path"); }
        else { check(got.is_none(), "longer names are not recognised"); reach("none"); }
    }
}
