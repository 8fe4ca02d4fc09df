#![no_main]
//! C22: setting files round-trip and every option has its documented byte.
use harness::settings::*;
use harness::*;
use rekordcrate::setting::*;

fn read(k: usize, b: &[u8]) -> Option<Setting> {
    match rda::<Setting, _>(b, (TYPES[k],)) {
        Ok((s, n)) => { check(n == b.len(), "a setting file is consumed exactly"); Some(s) }
        Err(_) => { check(false, "a valid setting file is read"); None }
    }
}
fn write(s: &Setting) -> Vec<u8> {
    match wra(s, (false,)) { Ok(w) => w, Err(_) => { check(false, "a setting can be written"); Vec::new() } }
}
fn defaults(k: usize) -> Setting { match k { 0 => Setting::default_devsetting(), 1 => Setting::default_djmmysetting(), 2 => Setting::default_mysetting(), _ => Setting::default_mysetting2() } }
fn cycle(k: usize, b: &[u8]) {
    let Some(s) = read(k, b) else { return };
    let mut ok = true;
    for i in 0..OPTIONS[k] { ok &= code(&s.data, i) == b[HEAD + AT[k][i]]; }
    check(ok, "every option is read from its byte");
    let w = write(&s);
    check(w.len() == b.len(), "a setting file has its documented size");
    if w.len() != b.len() { return; }
    check(same(&w[..HEAD + SIZE[k]], &b[..HEAD + SIZE[k]]) && w[w.len() - 2] == 0 && w[w.len() - 1] == 0, "a setting is written unchanged");
    check(match rda::<Setting, _>(&w, (TYPES[k],)) { Ok((t, _)) => t == s, Err(_) => false }, "the written setting is equal");
    reach("cycle");
}

harnesses! {
    fn h_options() {
        // all options of a file at once (a window of them arbitrary)
        let (k, from, n) = (param(0) as usize, param(1) as usize, param(2) as usize);
        let mut b = file(k);
        vary(&mut b, k, from, n, param(3) == 1);
        if n == 0 { for (p, _) in FREE[k] { b[HEAD + p] = u8v("free"); } }
        cycle(k, &b);
    }
    fn h_set() {
        // one option changed through the API: one byte changes
        let (k, i) = (param(0) as usize, param(1) as usize);
        let x = u8v("option");
        assume(valid(k, i, x));
        let x = fork(x as u64) as u8;
        let mut s = defaults(k);
        set(&mut s.data, i, x);
        check(code(&s.data, i) == x, "the option was set");
        let w = write(&s);
        let mut b = file(k);
        b[HEAD + AT[k][i]] = x;
        check(w.len() == b.len() && same(&w[..HEAD + SIZE[k]], &b[..HEAD + SIZE[k]]), "an option is written to its byte only");
        let Some(t) = read(k, &w) else { return };
        check(t == s && code(&t.data, i) == x, "the option survives");
        reach("set");
    }
    fn h_defaults() {
        let k = param(0) as usize;
        let s = defaults(k);
        let mut ok = true;
        for i in 0..OPTIONS[k] { ok &= code(&s.data, i) == DEFAULTS[k][i]; }
        check(ok, "default options are the documented ones");
        let (w, b) = (write(&s), file(k));
        check(w.len() == b.len() && same(&w[..HEAD + SIZE[k]], &b[..HEAD + SIZE[k]]), "the default file is the documented one");
        check(TYPES[k].expected_data_size() as usize == SIZE[k], "the data size is the documented one");
        check(s.data.as_dev_setting().is_some() == (k == 0) && s.data.as_djm_my_setting().is_some() == (k == 1) && s.data.as_my_setting().is_some() == (k == 2) && s.data.as_my_setting2().is_some() == (k == 3), "data is reported as its own kind only");
        reach("defaults");
    }
    fn h_strings() {
        let (k, i, n) = (param(0) as usize, param(1) as usize, param(2) as usize);
        let t = vec(n, "text");
        let mut ok = true;
        for c in &t { ok &= *c != 0; }
        assume(ok);
        let parts: [&[u8]; 3] = [if i == 0 { &t } else { b"PIONEER" }, if i == 1 { &t } else { b"rekordbox" }, if i == 2 { &t } else { b"6.6.1" }];
        let b = file_with(k, parts[0], parts[1], parts[2]);
        let Some(s) = read(k, &b) else { return };
        let got = [&s.brand.0, &s.software.0, &s.version.0];
        for j in 0..3 { check(got[j].len() == parts[j].len() && same(got[j], parts[j]), "texts are read from their places"); }
        let w = write(&s);
        check(w.len() == b.len() && same(&w[..HEAD + SIZE[k]], &b[..HEAD + SIZE[k]]), "texts are written to their places");
        reach("strings");
    }
    fn h_texts() { check(texts(), "every option shows its documented text"); reach("texts"); }
}
