#![no_main]
//! C28: exporting playlists writes only inside the output directory. C31: what is exported.
use harness::*;
use std::path::Path;
#[path = "../fs.rs"]
mod fs;
#[allow(dead_code, unused_imports, clippy::all)]
#[path = "/repo/src/main.rs"]
mod cli;

use harness::img::{given, Img};
/// a path stays below `root` whatever exists there: it never climbs above it
fn inside(path: &[u8], root: &[u8]) -> bool {
    if path.len() < root.len() || !same(&path[..root.len()], root) { return false; }
    if path.len() > root.len() && path[root.len()] != b'/' { return false; }
    let mut depth = 0;
    let mut at = root.len();
    while at < path.len() {
        let start = at + 1;
        let mut end = start;
        while end < path.len() && path[end] != b'/' { end += 1; }
        let part = &path[start..end];
        if part.len() == 2 && part[0] == b'.' && part[1] == b'.' { if depth == 0 { return false; } depth -= 1; }
        else if part.is_empty() || (part.len() == 1 && part[0] == b'.') {}
        else { depth += 1; }
        at = end;
    }
    true
}
fn export(img: Img, out: &str) -> bool {
    let before = fs::files() + 1;
    fs::put("/dev/PIONEER/rekordbox/export.pdb", img.b);
    let ok = cli::verif_hooks::export_playlists(Path::new("/dev"), Path::new(out)).is_ok();
    let mut made = 0;
    for c in fs::log() {
        match c {
            fs::Call::Create(p) => { check(inside(p, out.as_bytes()), "files are created only below the output directory"); made += 1; }
            fs::Call::Dir(p) => check(inside(p, out.as_bytes()), "directories are created only below the output directory"),
            fs::Call::Open(p) => check(same(p, b"/dev/PIONEER/rekordbox/export.pdb"), "only the database is read"),
            fs::Call::Other(_) => reach("opt:other"),
        }
    }
    check(fs::files() == before + made, "files come from creating them");
    ok
}
/// any ASCII text of n characters
fn name(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v, "name");
    for c in &v { assume(*c < 0x80 && *c != 0); }
    let mut r = vec![(2 * (n + 1) + 1) as u8];
    r.extend(v);
    r
}
harnesses! {
    // a playlist of any name; params: characters
    fn h_playlist() {
        let mut i = Img::new(&[7, 8, 0]);
        i.node(1, 0, false, &name(param(0) as usize));
        let ok = export(i, "/out");
        if ok { reach("exported"); } else { reach("opt:refused"); }
    }
    // a playlist in folders of any names; params: characters of each folder and of the playlist, folders
    fn h_folder() {
        let mut i = Img::new(&[7, 8, 0]);
        let n = param(2) as u32;
        for k in 0..n { i.node(1 + k, k, true, &name(param(0) as usize)); }
        i.node(9, n, false, &name(param(1) as usize));
        let ok = export(i, "/out/x");
        if ok { reach("exported"); } else { reach("opt:refused"); }
    }
    // a name with any character of any encoding in the middle of a climbing path; params: kind, place
    fn h_climb() {
        let mut i = Img::new(&[7, 8, 0]);
        let t: &[u8] = [&b"../../etc/x"[..], b"/etc/x", b"a/../../b", b"..", b"."][param(0) as usize];
        let mut t = t.to_vec();
        let p = param(1) as usize;
        if p < t.len() { t[p] = u8v("char"); assume(t[p] != 0 && t[p] < 0x80); }
        if param(2) == 1 { i.node(1, 0, true, &given(&t)); i.node(2, 1, false, &given(b"p")); } else { i.node(1, 0, false, &given(&t)); }
        let ok = export(i, "/out");
        if ok { reach("exported"); } else { reach("opt:refused"); }
    }
    // names of wide characters; params: encoded units, folder
    fn h_wide() {
        let mut i = Img::new(&[7, 8, 0]);
        let n = param(0) as usize;
        let mut s = vec![0x90, (4 + 2 * n) as u8, 0, 0];
        s.extend(vec(2 * n, "unit"));
        if param(1) == 1 { i.node(1, 0, true, &s); i.node(2, 1, false, &given(b"p")); } else { i.node(1, 0, false, &s); }
        let ok = export(i, "/out");
        if ok { reach("exported"); } else { reach("opt:refused"); }
    }
    // the content: one line per entry in order, each below the device; nothing of a foreign playlist
    fn h_content() {
        let mut i = Img::new(&[7, 8, 0]);
        let n = param(0) as usize;
        i.node(1, 0, false, &given(b"a"));
        i.node(2, 0, false, &given(b"b"));
        i.page(4);
        let (x, y) = (choose(3, "index") as u32, choose(3, "index") as u32);
        assume(x != y);
        i.entry(x, 10, 1);
        i.entry(y, 11, 1);
        i.entry(0, 12, 1 + choose(2, "list") as u32 * 2);
        i.page(6);
        let (p, q) = (name(n), name(n));
        i.track(10, &p);
        i.track(11, &q);
        let ok = export(i, "/out");
        check(ok, "a well-formed device is exported");
        reach("exported");
    }
    // C31: the file system fails at some operation, once or from then on
    fn h_faults() {
        let mut i = Img::new(&[7, 8, 0]);
        i.node(3, 0, true, &given(b"f"));
        i.node(5, 3, false, &given(b"a"));
        i.node(6, 0, false, &given(b"b"));
        i.page(4);
        i.entry(2, 10, 5);
        i.entry(1, 11, 5);
        i.entry(1, 11, 6);
        i.page(6);
        i.track(10, &given(b"/x"));
        i.track(11, &given(b"y"));
        fs::put("/dev/PIONEER/rekordbox/export.pdb", i.b);
        fs::fail_at(u16v("operation"), param(0) == 1);
        let ok = cli::verif_hooks::export_playlists(Path::new("/dev"), Path::new("/out")).is_ok();
        if fs::failed() { reach("opt:failed"); } else { check(ok, "a well-formed device is exported if nothing fails"); }
        if ok {
            check(fs::files() == 3, "an export that succeeds has made every file");
            if fs::files() != 3 { return; }
            check(same(fs::file(1), b"/dev/y\n/dev/x\n") && same(fs::file(2), b"/dev/y\n"), "an export that succeeds has written every file completely");
            reach("exported (faults)");
        }
    }
    // C31: the lines of two playlists; params: entries, characters of the tracks' paths, leading slash
    fn h_lines() {
        let (k, n) = (param(0) as usize, param(1) as usize);
        let mut i = Img::new(&[7, 8, 0]);
        i.node(5, 0, false, &given(b"a"));
        i.node(0x8000_0006, 0, false, &given(b"b"));
        i.page(4);
        let lists = [5, 0x8000_0006, 7u32];
        let ids = [10, 0xffff_ff0b, 12u32];
        let mut entries: Vec<(u32, usize, usize)> = Vec::new();
        for _ in 0..k {
            let e = (u32v("index"), choose(3, "track") as usize, choose(3, "list") as usize);
            for o in &entries { assume(o.0 != e.0 || o.2 != e.2); }
            i.entry(e.0, ids[e.1], lists[e.2]);
            entries.push(e);
        }
        i.page(6);
        let mut paths = Vec::new();
        for t in 0..2 {
            let mut p = vec![0u8; n];
            fill(&mut p, "path");
            for c in &p { assume(*c < 0x80 && *c >= 0x20); }
            if n > 0 { assume(p[0] != b'/'); }
            let mut stored = vec![(2 * (n + 1 + param(2) as usize) + 1) as u8];
            for _ in 0..param(2) { stored.push(b'/'); }
            stored.extend(&p);
            i.track(ids[t], &stored);
            paths.push(p);
        }
        let ok = export(i, "/out");
        check(ok, "the playlists are exported");
        if !ok { return; }
        check(fs::files() == 3, "one file for each playlist");
        for l in 0..2 {
            // the entries of this list, by index
            let mut want: Vec<u8> = Vec::new();
            let mut mine: Vec<(u32, usize)> = Vec::new();
            for e in &entries { if e.2 == l { let mut at = 0; while at < mine.len() && mine[at].0 < e.0 { at += 1; } mine.insert(at, (e.0, e.1)); } }
            for m in &mine { if m.1 < 2 { want.extend(b"/dev/"); want.extend(&paths[m.1]); want.push(b'\n'); reach("line"); } }
            let got = fs::file(1 + l);
            check(got.len() == want.len() && same(got, &want), "a playlist lists the paths of its tracks in the order of its entries");
        }
        reach("listed");
    }
    // C31: files and directories are named after playlists and folders; params: characters of each name, folders
    fn h_places() {
        let mut i = Img::new(&[7, 8, 0]);
        let n = param(1) as u32;
        let mut want = b"/out/x".to_vec();
        let plain = |n: usize| { let mut v = vec![0u8; n]; fill(&mut v, "plain"); for c in &v { assume(*c < 0x80 && *c >= 0x20 && !matches!(*c, b'/' | b'\\' | b'.' | b':')); } v };
        for k in 0..n {
            let f = plain(param(0) as usize);
            i.node(1 + k, k, true, &given(&f));
            want.push(b'/');
            want.extend(f);
        }
        let p = plain(param(0) as usize);
        i.node(9, n, false, &given(&p));
        let dir = want.clone();
        want.push(b'/');
        want.extend(p);
        want.extend(b".m3u");
        let ok = export(i, "/out/x");
        check(ok, "the playlist is exported");
        let log = fs::log();
        let (mut made, mut parent) = (0, false);
        for c in log {
            match c {
                fs::Call::Create(p) => { made += 1; check(p.len() == want.len() && same(p, &want), "the file is named after playlist and folders"); check(parent, "its directory was made before"); }
                fs::Call::Dir(d) => if d.len() == dir.len() && same(d, &dir) { parent = true; },
                _ => {}
            }
        }
        check(made == 1, "one file is written");
        reach("placed");
    }
}
