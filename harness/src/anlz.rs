//! Builders for analysis file sections (independent of the code under test).
use crate::*;
pub const KINDS: [&[u8; 4]; 14] = [b"PQTZ", b"PCOB", b"PCO2", b"PPTH", b"PVBR", b"PWAV", b"PWV2", b"PWV3", b"PWV4", b"PWV5", b"PWV6", b"PWV7", b"PSSI", b"PSSI"];
pub const ALL: [&[u8; 4]; 16] = [b"PMAI", b"PQTZ", b"PCOB", b"PCO2", b"PCP2", b"PCPT", b"PPTH", b"PVBR", b"PWAV", b"PWV2", b"PWV3", b"PWV4", b"PWV5", b"PWV6", b"PWV7", b"PSSI"];
/// header size of each kind, as documented
pub const HEAD: [usize; 14] = [24, 24, 20, 16, 16, 20, 20, 24, 24, 24, 20, 24, 32, 32];
pub const KEY: [u8; 19] = [0xCB, 0xE1, 0xEE, 0xFA, 0xE5, 0xEE, 0xAD, 0xEE, 0xE9, 0xD2, 0xE9, 0xEB, 0xE1, 0xE9, 0xF3, 0xE8, 0xE9, 0xF4, 0xE1];
pub fn b32(v: &mut Vec<u8>, x: u32) { v.extend_from_slice(&x.to_be_bytes()) }
pub fn b16(v: &mut Vec<u8>, x: u16) { v.extend_from_slice(&x.to_be_bytes()) }
static mut FROZEN: bool = false;
/// While frozen, builders fill in fixed content instead of arbitrary one.
pub fn freeze(on: bool) { unsafe { FROZEN = on } }
fn frozen() -> bool { unsafe { FROZEN } }
pub fn raw(v: &mut Vec<u8>, n: usize, name: &str) {
    if frozen() { for i in 0..n { v.push((i * 29 + 7) as u8); } } else { v.extend_from_slice(&vec(n, name)) }
}
pub fn be32(b: &[u8], p: usize) -> u32 { u32::from_be_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]) }
pub fn be16(b: &[u8], p: usize) -> u16 { u16::from_be_bytes([b[p], b[p + 1]]) }
pub fn put32(b: &mut [u8], p: usize, x: u32) { b[p..p + 4].copy_from_slice(&x.to_be_bytes()) }
fn one(v: &mut Vec<u8>, lo: u8, hi: u8, name: &str) { if frozen() { v.push(hi); return; } let b = u8v(name); assume((b >= lo) & (b <= hi)); v.push(b); }
/// n UTF-16 units in the basic plane without NUL; `hi`: 0 ASCII, 1 any non-surrogate unit
pub fn units(v: &mut Vec<u8>, n: usize, hi: bool, name: &str) {
    for _ in 0..n {
        if frozen() { b16(v, 0x61); continue; }
        let u = if hi { u16v(name) } else { u8v(name) as u16 };
        assume(u != 0);
        if hi { assume(u >> 11 != 0x1b); } else { assume(u < 0x80); }
        b16(v, u);
    }
}
/// content of `n` entries of one cue (56 bytes)
pub fn cue(v: &mut Vec<u8>) {
    v.extend_from_slice(b"PCPT"); b32(v, 28); b32(v, 56);
    raw(v, 16, "cue"); one(v, 1, 2, "cue_type"); raw(v, 3, "unknown"); raw(v, 24, "times");
}
/// extended cue with a comment of `c` units and `t` trailing bytes
/// (`free`: type, color and comment units are arbitrary; otherwise fixed type and color and an ASCII comment)
pub fn xcue(v: &mut Vec<u8>, c: usize, t: usize, free: bool) {
    let len = if c == 0 { 0 } else { 2 * c + 2 };
    v.extend_from_slice(b"PCP2"); b32(v, 16); b32(v, (68 + len + t) as u32);
    raw(v, 4, "hot_cue"); one(v, if free { 1 } else { 2 }, 2, "cue_type"); raw(v, 3, "unknown"); raw(v, 8, "times");
    one(v, 0, if free { 8 } else { 0 }, "color"); raw(v, 11, "loop");
    b32(v, len as u32);
    if c > 0 { units(v, c, free, "comment"); b16(v, 0); }
    raw(v, 24, "hot_cue_color"); raw(v, t, "trailing");
}
/// song structure data (plain)
pub fn song(v: &mut Vec<u8>, n: usize) {
    v.push(0); one(v, 1, 3, "mood"); raw(v, 10, "structure"); one(v, 0, 8, "bank"); raw(v, 1, "unknown"); raw(v, 24 * n, "phrases");
}
pub fn mask(b: &mut [u8], n: usize) { for i in 0..b.len() { b[i] ^= ((KEY[i % 19] as usize + n) % 256) as u8; } }
/// A well-formed section of kind `k` (index into KINDS, 14: unknown kind) with `n` entries; `c`, `t`: comment and trailing size of extended cues
pub fn section(k: usize, n: usize, c: usize, t: usize) -> Vec<u8> {
    let mut v = Vec::new();
    if k == 14 {
        let kind = if frozen() { *b"QRST" } else { bytes::<4>("kind") };
        for a in ALL { assume(kind != *a); }
        v.extend_from_slice(&kind); b32(&mut v, (12 + c) as u32); b32(&mut v, (12 + c + n) as u32);
        raw(&mut v, c + n, "content");
        return v;
    }
    v.extend_from_slice(KINDS[k]); b32(&mut v, HEAD[k] as u32); b32(&mut v, 0);
    match k {
        0 => { raw(&mut v, 8, "unknown"); b32(&mut v, n as u32); raw(&mut v, 8 * n, "beats"); }
        1 => { v.extend_from_slice(&[0, 0, 0]); one(&mut v, 0, 1, "list_type"); raw(&mut v, 2, "unknown"); b16(&mut v, n as u16); raw(&mut v, 4, "memory"); for _ in 0..n { cue(&mut v); } }
        2 => { v.extend_from_slice(&[0, 0, 0]); one(&mut v, 0, 1, "list_type"); b16(&mut v, n as u16); b16(&mut v, 0); for i in 0..n { xcue(&mut v, (c + i) % 4, t, i + 1 == n); } }
        3 => { b32(&mut v, 2 * n as u32 + 2); for _ in 0..n { if frozen() { b16(&mut v, 0x62); continue; } let u = u16v("path"); assume(u != 0); b16(&mut v, u); } b16(&mut v, 0); }
        4 => { raw(&mut v, 4 + n, "vbr"); }
        5 | 6 => { b32(&mut v, n as u32); raw(&mut v, 4 + n, "columns"); }
        7 => { b32(&mut v, 1); b32(&mut v, n as u32); b32(&mut v, 0x00960000); raw(&mut v, n, "columns"); }
        8 => { b32(&mut v, 6); b32(&mut v, n as u32); raw(&mut v, 4 + 6 * n, "columns"); }
        9 => { b32(&mut v, 2); b32(&mut v, n as u32); raw(&mut v, 4 + 2 * n, "columns"); }
        10 => { b32(&mut v, 3); b32(&mut v, n as u32); raw(&mut v, 3 * n, "columns"); }
        11 => { b32(&mut v, 3); b32(&mut v, n as u32); b32(&mut v, 0x00960000); raw(&mut v, 3 * n, "columns"); }
        _ => { b32(&mut v, 24); b16(&mut v, n as u16); song(&mut v, n); if k == 13 { mask(&mut v[18..], n); } }
    }
    let len = v.len() as u32;
    put32(&mut v, 8, len);
    v
}
/// A section with fixed content
pub fn fixed(k: usize, n: usize, c: usize, t: usize) -> Vec<u8> { freeze(true); let v = section(k, n, c, t); freeze(false); v }
