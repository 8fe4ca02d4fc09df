#![no_main]
//! C25: the playlist tree of a device.
use harness::db::*;
use harness::*;
use rekordcrate::device::{get_playlists, PlaylistNode};

const TREE: u32 = 7;
struct Node { parent: u32, sort: u32, id: u32, kind: u32, name: Vec<u8> }
/// a database with the given nodes on two data pages
fn image(nodes: &[Node], split: usize) -> Db {
    let ps = 0x160;
    let mut d = Db::new(ps, 4, 4, 1);
    d.table(0, TREE, 1, 3);
    d.index(1, TREE, 2, 2);
    for page in 2..4 {
        let part = if page == 2 { &nodes[..split] } else { &nodes[split..] };
        d.data(page, TREE, page as u32 + 1, part.len(), ((1u32 << part.len()) - 1) as u16);
        let mut at = 0;
        for (i, n) in part.iter().enumerate() {
            let heap = page * ps + 40 + at;
            for (j, v) in [n.parent, 0x55, n.sort, n.id, n.kind].iter().enumerate() { d.put32(heap + 4 * j, *v); }
            d.b[heap + 20] = (2 * (n.name.len() + 1) + 1) as u8;
            d.b[heap + 21..heap + 21 + n.name.len()].copy_from_slice(&n.name);
            d.put16(page * ps + ps - 4 - 2 * (i + 1), at as u16);
            at += (21 + n.name.len() + 3) / 4 * 4;
        }
        d.put16(page * ps + 30, at as u16);
    }
    d
}
fn parts(n: &PlaylistNode) -> (u32, &str, Option<&Vec<PlaylistNode>>) {
    match n { PlaylistNode::Folder(f) => (f.id.0, &f.name, Some(&f.children)), PlaylistNode::Playlist(p) => (p.id.0, &p.name, None) }
}
/// compares the siblings below `parent` with the rows
fn compare(nodes: &[Node], parent: u32, got: &[PlaylistNode], depth: usize) {
    let mut k = 0;
    for n in nodes.iter() {
        if n.parent != parent { continue; }
        check(k < got.len(), "every playlist and folder appears under its parent");
        if k >= got.len() { return; }
        let (id, name, children) = parts(&got[k]);
        check(id == n.id, "siblings come in the order of their rows, with their ids");
        check(same(name.as_bytes(), &n.name), "the name is that of the row");
        match children {
            Some(c) => { check(n.kind != 0, "folders are folders"); reach("folder"); if depth < nodes.len() { compare(nodes, n.id, c, depth + 1); } else { check(false, "the tree is no deeper than there are rows"); } }
            None => { check(n.kind == 0, "playlists are playlists"); reach("playlist"); }
        }
        k += 1;
    }
    check(k == got.len(), "nothing appears under a foreign parent");
}
fn count(got: &[PlaylistNode]) -> usize {
    let mut k = 0;
    for g in got { k += 1; if let Some(c) = parts(g).2 { k += count(c); } }
    k
}
/// rows with parents, ids and kinds as the parameters say (base 8 digits); the rest arbitrary
fn row(id: u32, parent: u32, chars: usize) -> Node {
    let mut name = vec![0u8; chars];
    fill(&mut name, "name");
    for c in &name { assume(*c < 0x80); }
    Node { parent, sort: u32v("sort"), id, kind: u32v("kind"), name }
}
harnesses! {
    // distinct ids, any parents, any kinds, any sort order, any names; params: rows, rows on the first page, characters, id scheme
    fn h_tree() {
        let (n, split, chars) = (param(0) as usize, param(1) as usize, param(2) as usize);
        // a permutation of ids: rows come in any order with respect to the hierarchy
        let ids: [u32; 5] = match param(3) { 0 => [1, 2, 3, 4, 5], 1 => [5, 4, 3, 2, 1], _ => [0xffff_ffff, 7, 0x8000_0000, 1, 2] };
        let mut nodes = Vec::new();
        for i in 0..n {
            // the root, any row (itself included), or a missing node
            let c = choose(n as u64 + 2, "parent") as usize;
            let parent = if c == 0 { 0 } else if c <= n { ids[c - 1] } else { 99 };
            nodes.push(row(ids[i], parent, chars));
        }
        let d = image(&nodes, split);
        let mut db = match d.reader() { Ok(d) => d, Err(_) => { check(false, "database opened"); return } };
        match get_playlists(&mut db) {
            Ok(got) => { compare(&nodes, 0, &got, 0); reach("tree"); }
            Err(_) => check(false, "well-formed rows give a tree"),
        }
    }
    // any ids and parents, repeated and zero ids included; params: rows
    fn h_cycle() {
        let n = param(0) as usize;
        let mut nodes = Vec::new();
        for _ in 0..n {
            let (id, parent) = (choose(n as u64, "id") as u32, choose(n as u64, "parent") as u32);
            nodes.push(row(id, parent, 1));
        }
        let d = image(&nodes, n / 2);
        let mut db = match d.reader() { Ok(d) => d, Err(_) => { check(false, "database opened"); return } };
        match get_playlists(&mut db) {
            Ok(got) => { check(count(&got) <= n, "no row appears twice"); reach("tree"); }
            Err(_) => reach("opt:error"),
        }
    }
    // ids and parents are full numbers: they are told apart by every bit
    fn h_ids() {
        let bit = param(0) as u32;
        let (a, b) = (1u32 << bit, (1u32 << bit) ^ (1 << ((bit + 7) % 32)));
        let nodes = vec![row(a, 0, 1), row(b, a, 1), row(3 ^ a, b, 1)];
        let d = image(&nodes, 1);
        let mut db = match d.reader() { Ok(d) => d, Err(_) => { check(false, "database opened"); return } };
        match get_playlists(&mut db) { Ok(got) => { compare(&nodes, 0, &got, 0); reach("tree"); } Err(_) => check(false, "well-formed rows give a tree (ids)") }
    }
    // a name that cannot be decoded is an error, not a crash
    fn h_name() {
        let mut nodes = vec![row(1, 0, 1), row(2, 1, 1)];
        nodes[param(0) as usize].name = vec(param(1) as usize, "raw");
        let d = image(&nodes, 1);
        let mut db = match d.reader() { Ok(d) => d, Err(_) => { check(false, "database opened"); return } };
        match get_playlists(&mut db) { Ok(got) => { check(count(&got) <= 2, "no row appears twice (names)"); reach("tree"); } Err(_) => reach("opt:error") }
    }
    // an absent table is an error
    fn h_absent() {
        let mut d = image(&[], 0);
        d.put32(28, u32v("type"));
        let kind = d.get32(28);
        assume(kind != TREE);
        let mut db = match d.reader() { Ok(d) => d, Err(_) => { check(false, "database opened"); return } };
        check(get_playlists(&mut db).is_err(), "a missing playlist table is an error");
        reach("absent");
    }
}
