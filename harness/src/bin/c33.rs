#![no_main]
//! C33: what listing playlists prints. C34: which file type the dump commands assume. C35: dumping files.
use harness::img::{given, well, Img};
use binrw::io::Cursor;
use harness::*;
use rekordcrate::anlz::ANLZ;
use rekordcrate::pdb::DatabaseType;
use rekordcrate::setting::{Setting, SettingType};
use rekordcrate::xml::Document;
use std::io::Write;
use std::path::Path;
#[path = "../fs.rs"]
mod fs;
#[allow(dead_code, unused_imports, clippy::all)]
#[path = "/repo/src/main.rs"]
mod cli;
use cli::verif_hooks as run;

const PLAYLIST: &[u8] = "🗎".as_bytes();
const FOLDER: &[u8] = "🗀".as_bytes();
const NOTE: &[u8] = "♫".as_bytes();
fn printable(n: usize, name: &str) -> Vec<u8> {
    let v = vec(n, name);
    for c in &v { assume(*c >= 0x20 && *c < 0x7f); }
    v
}
fn listed(img: Img) -> bool {
    fs::put("/x.pdb", img.b);
    let ok = run::list_playlists(Path::new("/x.pdb")).is_ok();
    let _ = std::io::stdout().flush();
    ok
}
fn lines(b: &[u8]) -> Vec<&[u8]> {
    let mut v = Vec::new();
    let mut at = 0;
    for i in 0..b.len() { if b[i] == b'\n' { v.push(&b[at..i]); at = i + 1; } }
    if at < b.len() { v.push(&b[at..]); }
    v
}
fn starts(l: &[u8], p: &[u8]) -> bool { l.len() >= p.len() && same(&l[..p.len()], p) }
struct Node { id: u32, parent: u32, folder: bool, name: Vec<u8> }
fn tree(nodes: &[Node], parent: u32, level: usize, out: &mut Vec<Vec<u8>>) {
    for n in nodes {
        if n.parent != parent { continue; }
        let mut l = vec![b' '; 4 * level];
        l.extend(if n.folder { FOLDER } else { PLAYLIST });
        l.push(b' ');
        l.extend(&n.name);
        out.push(l);
        tree(nodes, n.id, level + 1, out);
    }
}
/// number of lines of the output after a line starting with `from` up to one starting with `to` that start with `what`
fn has(l: &[&[u8]], what: &[u8]) -> usize { let mut n = 0; for x in l { n += starts(x, what) as usize; } n }
/// the file name without directories, as the documentation of paths has it; None if there is none
fn plain_name(b: &[u8]) -> bool { !b.is_empty() && !same(b, b".") && !same(b, b"..") }

harnesses! {
    // C33: the tree; params: nodes, characters of a name
    fn h_tree() {
        let (n, c) = (param(0) as usize, param(1) as usize);
        let ids = [3u32, 0x100, 0xffff_fff0];
        let mut img = Img::new(&[7, 8, 0, 2]);
        let mut nodes = Vec::new();
        for i in 0..n {
            let p = choose(n as u64 + 2, "parent") as usize;
            let parent = if p == 0 { 0 } else if p <= n { ids[p - 1] } else { 77 };
            let folder = boolv("folder");
            let folder = fork(folder as u64) == 1;
            let name = printable(c, "name");
            img.node(ids[i], parent, folder, &given(&name));
            nodes.push(Node { id: ids[i], parent, folder, name });
        }
        let mut want = Vec::new();
        tree(&nodes, 0, 0, &mut want);
        let ok = listed(img);
        check(ok, "an intact database is listed");
        let got = lines(fs::out());
        check(got.len() == want.len(), "one line for every node below the root");
        if got.len() != want.len() { return; }
        for i in 0..want.len() { check(got[i].len() == want[i].len() && same(got[i], &want[i]), "nodes are listed below their parents in the order of their rows, by kind and name"); reach("node"); }
        reach("tree");
    }
    // C33: tracks of two playlists; params: entries, characters of titles and names
    fn h_tracks() {
        let (k, n) = (param(0) as usize, param(1) as usize);
        let mut img = Img::new(&[7, 8, 0, 2]);
        let lists = [5u32, 0x8000_0006, 7];
        img.node(5, 0, true, &given(b"F"));
        img.node(0x8000_0006, 5, false, &given(b"P"));
        img.page(4);
        let numbers = [0u32, 2, 10, 0xffff_ffff];
        let texts = [&b"0"[..], b"2", b"10", b"4294967295"];
        let ids = [10u32, 0xffff_ff0b, 12];
        let mut entries: Vec<(usize, usize, usize)> = Vec::new();
        for _ in 0..k {
            let e = (choose(4, "index") as usize, choose(3, "track") as usize, choose(3, "list") as usize);
            for o in &entries { assume(o.0 != e.0 || o.2 != e.2); }
            img.entry(numbers[e.0], ids[e.1], lists[e.2]);
            entries.push(e);
        }
        img.page(6);
        let (t0, t1, a) = (printable(n, "title"), printable(n, "title"), printable(n, "artist"));
        img.titled(10, 20, &given(&t0));
        let other = choose(2, "other") as u32;
        img.titled(0xffff_ff0b, 20 + other, &given(&t1));
        img.page(8);
        img.artist(20, &given(&a));
        let ok = listed(img);
        check(ok, "an intact database is listed (tracks)");
        let got = lines(fs::out());
        let mut at = 0;
        for l in 0..2 {
            let mut head = vec![b' '; 4 * l];
            head.extend(if l == 0 { FOLDER } else { PLAYLIST });
            head.extend(if l == 0 { b" F" } else { b" P" });
            check(at < got.len() && same(got[at], &head), "a playlist precedes its tracks");
            at += 1;
            for i in 0..4 {
                for e in &entries {
                    if e.0 != i || e.2 != l { continue; }
                    check(at < got.len(), "every entry of a playlist is listed");
                    if at >= got.len() { return; }
                    let mut want = vec![b' '; 4 * l + 2];
                    want.extend(NOTE);
                    want.push(b' ');
                    want.extend(texts[i]);
                    want.extend(b": ");
                    check(starts(got[at], &want), "entries are listed by their index");
                    if e.1 == 0 || (e.1 == 1 && other == 0) {
                        want.extend(&a);
                        want.extend(b" - ");
                        want.extend(if e.1 == 0 { &t0 } else { &t1 });
                        check(got[at].len() == want.len() && same(got[at], &want), "an entry shows artist and title of its track");
                        reach("track");
                    } else if e.1 == 1 {
                        let t = got[at];
                        check(t.len() >= t1.len() && same(&t[t.len() - t1.len()..], &t1), "a track without artist is listed with its title");
                        reach("no artist");
                    } else { reach("no track"); }
                    at += 1;
                }
            }
        }
        check(at == got.len(), "entries of other playlists are not listed");
        reach("tracks");
    }
    // C33: names of any wide characters; params: units
    fn h_wide() {
        let n = param(0) as usize;
        let mut img = Img::new(&[7, 8, 0, 2]);
        let mut s = vec![0x90, (4 + 2 * n) as u8, 0, 0];
        s.extend(vec(2 * n, "unit"));
        img.node(1, 0, false, &s);
        img.node(2, 0, false, &given(b"after"));
        let ok = listed(img);
        if !ok { reach("opt:refused"); return; }
        let o = fs::out();
        check(o.len() >= 6 && same(&o[o.len() - 6..], b"after\n"), "a strange name does not hide the playlists behind it");
        reach("listed");
    }
    // C33: the file system fails at some operation, once or from then on
    fn h_faults() {
        let mut img = Img::new(&[7, 8, 0, 2]);
        img.node(5, 0, true, &given(b"F"));
        img.node(6, 5, false, &given(b"P"));
        img.page(4);
        img.entry(2, 10, 6);
        img.page(6);
        img.titled(10, 20, &given(b"T"));
        img.page(8);
        img.artist(20, &given(b"A"));
        fs::put("/x.pdb", img.b);
        fs::fail_at(u16v("operation"), param(0) == 1);
        let ok = run::list_playlists(Path::new("/x.pdb")).is_ok();
        if fs::failed() { reach("opt:failed"); } else { check(ok, "an intact database is listed if nothing fails"); }
        let _ = std::io::stdout().flush();
        let mut want = FOLDER.to_vec();
        want.extend(b" F\n    ");
        want.extend(PLAYLIST);
        want.extend(b" P\n      ");
        want.extend(NOTE);
        want.extend(b" 2: A - T\n");
        if ok { check(same(fs::out(), &want), "a listing that succeeds is complete"); reach("listed (faults)"); }
    }
    // C33: without a database, or with a table missing; params: the missing table
    fn h_missing() {
        let kinds = [7u32, 8, 0, 2];
        let m = param(0) as usize;
        let mut with = Vec::new();
        for i in 0..4 { if i != m { with.push(kinds[i]); } }
        if m < 4 { let mut img = Img::new(&with); img.b[0] = 0; fs::put("/x.pdb", img.b); }
        let r = run::list_playlists(Path::new("/x.pdb"));
        check(r.is_err(), "a missing file or table is reported");
        reach("missing");
    }

    // C34: database type; params: file name, place of an arbitrary character, directory, option (0: none, 1: plain, 2: ext)
    fn h_db() {
        let name: &[u8] = [&b"export.pdb"[..], b"exportExt.pdb"][param(0) as usize];
        let mut b = name.to_vec();
        let p = param(1) as usize;
        if p < b.len() { b[p] = u8v("char"); assume(b[p] != 0 && b[p] != b'/' && b[p] < 0x80); }
        let exact = same(&b, name);
        let mut path = [&b""[..], b"/", b"a/exportExt.pdb/", b"/export.pdb/b/"][param(2) as usize].to_vec();
        path.extend(&b);
        let path = unsafe { String::from_utf8_unchecked(path) };
        let opt = [None, Some("plain"), Some("ext")][param(3) as usize];
        let got = run::guess_db_type(Path::new(&path), opt);
        let own = [DatabaseType::Plain, DatabaseType::Ext][param(0) as usize];
        let want = match opt { Some("plain") => Some(DatabaseType::Plain), Some(_) => Some(DatabaseType::Ext), None => if exact { Some(own) } else { None } };
        check(got == want, "the database type is the one asked for, otherwise that of the file's exact name");
        if got.is_some() { reach("opt:type"); } else { reach("opt:none"); }
    }
    // C34: setting type; params: file name, place of an arbitrary character, directory, option (0: none)
    fn h_setting() {
        const T: [SettingType; 4] = [SettingType::DevSetting, SettingType::DJMMySetting, SettingType::MySetting, SettingType::MySetting2];
        let name: &[u8] = [&b"DEVSETTING.DAT"[..], b"DJMMYSETTING.DAT", b"MYSETTING.DAT", b"MYSETTING2.DAT"][param(0) as usize];
        let mut b = name.to_vec();
        let p = param(1) as usize;
        if p < b.len() { b[p] = u8v("char"); assume(b[p] != 0 && b[p] != b'/' && b[p] < 0x80); }
        let exact = same(&b, name);
        let mut path = [&b""[..], b"/", b"a/MYSETTING.DAT/", b"/DEVSETTING.DAT/b/"][param(2) as usize].to_vec();
        path.extend(&b);
        let path = unsafe { String::from_utf8_unchecked(path) };
        let o = param(3) as usize;
        let opt = [None, Some("devsetting"), Some("djmmysetting"), Some("mysetting"), Some("mysetting2")][o];
        let got = run::guess_setting_type(Path::new(&path), opt);
        let want = if o > 0 { Some(T[o - 1]) } else if exact { Some(T[param(0) as usize]) } else { None };
        check(got == want, "the setting type is the one asked for, otherwise that of the file's exact name");
        if got.is_some() { reach("opt:type"); } else { reach("opt:none"); }
    }
    // C34: any file name; params: its length, directory, option (0: none)
    fn h_name() {
        let b = vec(param(0) as usize, "char");
        for c in &b { assume(*c != 0 && *c != b'/' && *c < 0x80); }
        if b.len() < 3 { assume(b.iter().any(|c| *c != b'.')); }
        let mut path = [&b""[..], b"/", b"a/exportExt.pdb/", b"../MYSETTING.DAT/b/"][param(1) as usize].to_vec();
        path.extend(&b);
        let path = unsafe { String::from_utf8_unchecked(path) };
        let o = param(2) as usize;
        let db = run::guess_db_type(Path::new(&path), [None, Some("plain"), Some("ext")][o]);
        let st = run::guess_setting_type(Path::new(&path), [None, Some("djmmysetting"), Some("mysetting2")][o]);
        let want = if o > 0 { Some([DatabaseType::Plain, DatabaseType::Ext][o - 1]) } else if same(&b, b"export.pdb") { Some(DatabaseType::Plain) } else if same(&b, b"exportExt.pdb") { Some(DatabaseType::Ext) } else { None };
        check(db == want, "the database type of any file is the one asked for, otherwise that of its exact name");
        let want = if o > 0 { Some([SettingType::DJMMySetting, SettingType::MySetting2][o - 1]) }
            else if same(&b, b"DEVSETTING.DAT") { Some(SettingType::DevSetting) } else if same(&b, b"DJMMYSETTING.DAT") { Some(SettingType::DJMMySetting) }
            else if same(&b, b"MYSETTING.DAT") { Some(SettingType::MySetting) } else if same(&b, b"MYSETTING2.DAT") { Some(SettingType::MySetting2) } else { None };
        check(st == want, "the setting type of any file is the one asked for, otherwise that of its exact name");
    }
    // C34: any short path; params: characters, option
    fn h_path() {
        let b = vec(param(0) as usize, "char");
        for c in &b { assume(*c != 0 && *c < 0x80); }
        let path = unsafe { String::from_utf8_unchecked(b) };
        let db = run::guess_db_type(Path::new(&path), [None, Some("plain"), Some("ext")][param(1) as usize]);
        let st = run::guess_setting_type(Path::new(&path), [None, Some("mysetting"), Some("devsetting")][param(1) as usize]);
        if param(1) == 0 { check(db.is_none() && st.is_none(), "no type is made up for a name that is none of the documented ones"); reach("opt:none"); }
        else {
            check(db.is_none() || db == Some([DatabaseType::Plain, DatabaseType::Ext][param(1) as usize - 1]), "the type asked for is not replaced by another");
            check(st.is_none() || st == Some([SettingType::MySetting, SettingType::DevSetting][param(1) as usize - 1]), "the setting type asked for is not replaced by another");
            let last = path.as_bytes();
            let mut plain = plain_name(last);
            for c in last { if *c == b'/' { plain = false; } }
            if plain { check(db.is_some() && st.is_some(), "the type asked for is used whatever the file's name is"); reach("opt:plain"); }
        }
    }

    // C35: dumping a database of three tables, some broken, some unknown; params: whether unknown tables are parsed, kind of database
    fn h_dump() {
        let all = param(0) == 1;
        let ext = param(1) == 1;
        let kinds: [u32; 3] = if ext { [4, 77, 3] } else { [8, 77, 7] };
        let mut img = Img::new(&kinds);
        let mut broken = [false; 3];
        let mut unknown = [false; 3];
        for i in 0..3 {
            // the table ends well, or its chain leaves the file, or it starts behind its only pages, or it is of an unknown type
            let what = choose(4, "damage");
            let (head, page) = (28 + 16 * i, (1 + 2 * i) * harness::img::PS);
            match what {
                1 => { img.b[page + 12] = 50; broken[i] = true; }
                2 => { img.b[head + 8] = 60; broken[i] = true; }
                3 => { img.b[head] = 99; img.b[page + 8] = 99; img.b[page + harness::img::PS + 8] = 99; unknown[i] = true; }
                _ => {}
            }
            if i == 1 { unknown[i] = true; }
            img.page(2 + 2 * i);
            if i != 1 && what != 3 { img.row(&well(if ext { [16, 0, 15][i] } else { [8, 0, 7][i] })); }
        }
        fs::put("/x.pdb", img.b);
        let r = run::dump_pdb(Path::new("/x.pdb"), if ext { DatabaseType::Ext } else { DatabaseType::Plain }, all);
        let _ = std::io::stdout().flush();
        check(r.is_ok(), "a database with damaged tables is dumped as far as possible");
        let got = lines(fs::out());
        // the part of each table
        let mut at = 0;
        for i in 0..3 {
            let head = [&b"Table TableIndex(0): "[..], b"Table TableIndex(1): ", b"Table TableIndex(2): "][i];
            while at < got.len() && !starts(got[at], head) { at += 1; }
            check(at < got.len(), "every table is reported, in order");
            if at >= got.len() { return; }
            at += 1;
            let mut end = at;
            while end < got.len() && !starts(got[end], b"Table ") { end += 1; }
            let part = &got[at..end];
            let (pages, details) = (has(part, b"  Page {"), has(part, b"      "));
            if unknown[i] && !all { check(pages == 0 && details == 0, "tables of unknown types are skipped unless asked for"); reach("skipped"); }
            else if !broken[i] {
                check(pages == 2, "every page of an intact table is dumped");
                // one index entry, one row
                check(details == if unknown[i] { 1 } else { 2 }, "every entry and row of an intact table is dumped");
                reach("dumped");
            } else { check(pages < 2, "pages that are not there are not dumped"); reach("broken"); }
        }
        let complaints = has(&lines(fs::err()), b"Error");
        let mut want = 0;
        for i in 0..3 { want += (broken[i] && (all || !unknown[i])) as usize; }
        check(complaints == want, "every damaged table is complained about");
        reach("all tables");
    }
    // C35: any file; params: kind, bytes
    fn h_any() {
        let (k, n) = (param(0), param(1) as usize);
        let b = vec(n, "byte");
        if k == 6 { for c in &b { assume(*c < 0x80); } }
        fs::put("/f", b.clone());
        report(k, b);
    }
    // C35: a small well-formed file of each kind, with bytes replaced; params: kind, place, number of bytes
    fn h_damaged() {
        let k = param(0);
        let mut b = small(k);
        let (p, n) = (param(1) as usize, param(2) as usize);
        if p >= b.len() { return; }
        let e = (p + n).min(b.len());
        fill(&mut b[p..e], "byte");
        if k == 6 { for i in p..e { assume(b[i] < 0x80); } }
        fs::put("/f", b.clone());
        report(k, b);
    }
    // C35: the file system fails at some operation, once or from then on; params: kind, whether it goes on failing
    fn h_dump_faults() {
        let k = param(0);
        let b = match k { 5 => {
            let mut img = Img::new(&[8, 77, 7]);
            for (i, row) in [(0, 8), (2, 7)] { img.page(2 + 2 * i); img.row(&well(row)); }
            img.b
        } 0 => { let mut b = small(0); b[31] = b'!'; b } k => small(k) };
        fs::put("/f", b);
        check(command(k), "an intact file is dumped");
        let _ = std::io::stdout().flush();
        let (n, e) = (fs::out().len(), fs::err().len());
        fs::fail_at(u16v("operation"), param(1) == 1);
        let ok = command(k);
        let _ = std::io::stdout().flush();
        if fs::failed() { reach("opt:failed"); } else { check(ok, "an intact file is dumped if nothing fails"); }
        if ok && fs::err().len() == e {
            check(same(&fs::out()[n..], &fs::out()[..n]), "a dump that reports no failure is complete");
            reach("dumped (faults)");
        }
    }
    // C35: a file that is not there
    fn h_absent() {
        let r = [run::dump_anlz(Path::new("/f")).is_err(), run::dump_setting(Path::new("/f"), SettingType::MySetting).is_err(), run::dump_xml(Path::new("/f")).is_err(), run::dump_pdb(Path::new("/f"), DatabaseType::Plain, true).is_err(), run::list_playlists(Path::new("/f")).is_err()];
        for x in r { check(x, "a missing file is an error"); }
        reach("absent");
    }
}
/// a small well-formed file of a kind
fn small(k: u64) -> Vec<u8> {
    match k {
        0 => { let mut b = b"PMAI\0\0\0\x0c\0\0\0\x2aXYZW\0\0\0\x0e\0\0\0\x10abcdPQTZ\0\0\0\x0c\0\0\0\x0e!?".to_vec(); b.truncate(0x2a); b }
        6 => b"<?xml version=\"1.0\"?><DJ_PLAYLISTS Version=\"1\"><PRODUCT Name=\"a\" Version=\"b\" Company=\"c\"/><COLLECTION Entries=\"0\"/><PLAYLISTS><NODE Type=\"0\" Name=\"ROOT\" Count=\"0\"/></PLAYLISTS></DJ_PLAYLISTS>".to_vec(),
        5 => { let mut d = harness::db::Db::new(0x60, 3, 3, 1); d.table(0, 8, 1, 2); d.index(1, 8, 2, 1); d.data(2, 8, 3, 2, 3); d.b }
        k => harness::settings::file(k as usize - 1),
    }
}
/// runs the dump command for a kind of file
fn command(k: u64) -> bool {
    match k {
        0 => run::dump_anlz(Path::new("/f")).is_ok(),
        1..=4 => run::dump_setting(Path::new("/f"), T[k as usize - 1]).is_ok(),
        5 => run::dump_pdb(Path::new("/f"), DatabaseType::Plain, true).is_ok(),
        _ => run::dump_xml(Path::new("/f")).is_ok(),
    }
}
const T: [SettingType; 4] = [SettingType::DevSetting, SettingType::DJMMySetting, SettingType::MySetting, SettingType::MySetting2];
/// the command succeeds exactly if the reader of the library does
fn report(k: u64, b: Vec<u8>) {
    use binrw::BinRead;
    let got = command(k);
    let want = match k {
        0 => ANLZ::read(&mut Cursor::new(&b)).is_ok(),
        1..=4 => Setting::read_args(&mut Cursor::new(&b), (T[k as usize - 1],)).is_ok(),
        5 => rekordcrate::pdb::io::Database::open_non_persistent(Cursor::new(&b), DatabaseType::Plain).is_ok(),
        _ => {
            let r: Result<Document, _> = quick_xml::de::from_reader(&b[..]);
            r.is_ok()
        }
    };
    check(got == want, "opt:a command fails on a file exactly if it cannot be read");
    let _ = std::io::stdout().flush();
    if got { check(!fs::out().is_empty(), "opt:what was read is printed"); reach("opt:read"); } else { reach("opt:error"); }
}
