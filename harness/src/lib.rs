//! Harness intrinsics: symbolic inputs, assumptions and assertions.
//! Under the symbolic executor they are interpreted; natively rt.c replays recorded inputs.
extern "C" {
    fn vf_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn vf_assume(c: bool);
    fn vf_assert(c: bool, id: *const u8, n: usize);
    fn vf_reach(id: *const u8, n: usize);
    fn vf_param(i: usize) -> u64;
    fn vf_observe(id: u32, p: *const u8, n: usize);
    fn vf_fork(x: u64) -> u64;
}
pub fn fill(buf: &mut [u8], name: &str) { unsafe { vf_bytes(buf.as_mut_ptr(), buf.len(), name.as_ptr(), name.len()) } }
pub fn bytes<const N: usize>(name: &str) -> [u8; N] { let mut b = [0u8; N]; fill(&mut b, name); b }
pub fn vec(n: usize, name: &str) -> Vec<u8> { let mut b = vec![0u8; n]; fill(&mut b, name); b }
pub fn u8v(name: &str) -> u8 { bytes::<1>(name)[0] }
pub fn u16v(name: &str) -> u16 { u16::from_le_bytes(bytes(name)) }
pub fn u32v(name: &str) -> u32 { u32::from_le_bytes(bytes(name)) }
pub fn u64v(name: &str) -> u64 { u64::from_le_bytes(bytes(name)) }
pub fn boolv(name: &str) -> bool { let b = u8v(name); assume(b < 2); b == 1 }
/// a number in 0..n (n <= 256), concrete on every path
pub fn choose(n: u64, name: &str) -> u64 { let b = u8v(name); assume((b as u64) < n); fork(b as u64) }
pub fn fork(x: u64) -> u64 { unsafe { vf_fork(x) } }
pub fn assume(c: bool) { unsafe { vf_assume(c) } }
pub fn check(c: bool, id: &str) { unsafe { vf_assert(c, id.as_ptr(), id.len()) } }
pub fn reach(id: &str) { unsafe { vf_reach(id.as_ptr(), id.len()) } }
pub fn param(i: usize) -> u64 { unsafe { vf_param(i) } }
pub fn observe(id: u32, b: &[u8]) { unsafe { vf_observe(id, b.as_ptr(), b.len()) } }
pub fn observe64(id: u32, x: u64) { observe(id, &x.to_le_bytes()) }

/// byte equality without data-dependent branches
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}

#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $($(#[$m])* #[no_mangle] #[inline(never)] pub extern "C" fn $name() $body)*
        #[no_mangle]
        pub extern "C" fn vf_dispatch(p: *const u8, n: usize) {
            let s = unsafe { std::slice::from_raw_parts(p, n) };
            $(if s == stringify!($name).as_bytes() { $name(); return; })*
            eprintln!("no such harness");
            std::process::exit(2);
        }
    };
}

/// Arbitrary text of `n` characters; `max_class` bounds the UTF-8 length of a character (1..=4).
/// The class of every character is chosen symbolically, its code point is any valid one of that class.
pub fn text(n: usize, max_class: u64, name: &str) -> String {
    let mut v = Vec::with_capacity(4 * n + 1);
    for _ in 0..n { let c = 1 + choose(max_class, "class"); push_char(&mut v, c, name); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Append one arbitrary character whose UTF-8 form has `class` bytes.
pub fn push_char(v: &mut Vec<u8>, class: u64, name: &str) {
    match class {
        1 => { let b = u8v(name); assume(b < 0x80); v.push(b); }
        2 => { let b: [u8; 2] = bytes(name); assume((b[0] >= 0xC2) & (b[0] <= 0xDF) & (b[1] & 0xC0 == 0x80)); v.extend_from_slice(&b); }
        3 => {
            let b: [u8; 3] = bytes(name);
            assume((b[0] & 0xF0 == 0xE0) & (b[1] & 0xC0 == 0x80) & (b[2] & 0xC0 == 0x80));
            assume((b[0] != 0xE0) | (b[1] >= 0xA0));
            assume((b[0] != 0xED) | (b[1] < 0xA0));
            v.extend_from_slice(&b);
        }
        _ => {
            let b: [u8; 4] = bytes(name);
            assume((b[0] >= 0xF0) & (b[0] <= 0xF4) & (b[1] & 0xC0 == 0x80) & (b[2] & 0xC0 == 0x80) & (b[3] & 0xC0 == 0x80));
            assume((b[0] != 0xF0) | (b[1] >= 0x90));
            assume((b[0] != 0xF4) | (b[1] < 0x90));
            v.extend_from_slice(&b);
        }
    }
}
/// `n` ASCII characters, all arbitrary.
pub fn ascii(n: usize, name: &str) -> String {
    let v = vec(n, name);
    let mut ok = true;
    for i in 0..n { ok &= v[i] < 0x80; }
    assume(ok);
    unsafe { String::from_utf8_unchecked(v) }
}
/// `n` ASCII characters of which only `k` (spread over the text) are arbitrary.
pub fn long_ascii(n: usize, k: usize, name: &str) -> String {
    let mut v = std::vec![b'a'; n];
    for i in 0..k.min(n) {
        let p = if k < 2 { 0 } else { i * (n - 1) / (k - 1) };
        let b = u8v(name); assume(b < 0x80); v[p] = b;
    }
    unsafe { String::from_utf8_unchecked(v) }
}

pub mod pages;
pub mod db;
pub mod img;
pub mod anlz;
pub mod settings;
use binrw::io::Cursor;
use binrw::{BinRead, BinWrite};
pub type ArgsR<'a, T> = <T as BinRead>::Args<'a>;
/// Values are read and written somewhere inside a stream rather than at its start.
const BEFORE: usize = 16;
fn reader(b: &[u8]) -> Cursor<Vec<u8>> {
    let mut v = Vec::with_capacity(BEFORE + b.len());
    v.resize(BEFORE, 0x5A);
    v.extend_from_slice(b);
    let mut c = Cursor::new(v);
    c.set_position(BEFORE as u64);
    c
}
fn writer() -> Cursor<Vec<u8>> {
    let mut c = Cursor::new(vec![0x5A; BEFORE]);
    c.set_position(BEFORE as u64);
    c
}
fn written(c: Cursor<Vec<u8>>) -> Vec<u8> {
    let v = c.into_inner();
    check(v.len() >= BEFORE && same(&v[..BEFORE], &[0x5A; BEFORE]), "opt:what precedes a value is not overwritten");
    v[BEFORE..].to_vec()
}
/// Little-endian read of a whole value; returns it with the number of bytes consumed.
pub fn rd<T: for<'a> BinRead<Args<'a> = ()>>(b: &[u8]) -> Result<(T, usize), binrw::Error> {
    let mut c = reader(b);
    let v = T::read_le(&mut c)?;
    Ok((v, c.position() as usize - BEFORE))
}
pub fn wr<T: for<'a> BinWrite<Args<'a> = ()>>(v: &T) -> Result<Vec<u8>, binrw::Error> {
    let mut c = writer();
    v.write_le(&mut c)?;
    Ok(written(c))
}
pub fn rd_be<T: for<'a> BinRead<Args<'a> = ()>>(b: &[u8]) -> Result<(T, usize), binrw::Error> {
    let mut c = reader(b);
    let v = T::read_be(&mut c)?;
    Ok((v, c.position() as usize - BEFORE))
}
pub fn wr_be<T: for<'a> BinWrite<Args<'a> = ()>>(v: &T) -> Result<Vec<u8>, binrw::Error> {
    let mut c = writer();
    v.write_be(&mut c)?;
    Ok(written(c))
}

/// Little-endian read of a whole value with arguments.
pub fn rda<T: for<'a> BinRead<Args<'a> = A>, A>(b: &[u8], args: A) -> Result<(T, usize), binrw::Error> {
    let mut c = reader(b);
    let v = T::read_le_args(&mut c, args)?;
    Ok((v, c.position() as usize - BEFORE))
}
pub fn wra<T: for<'a> BinWrite<Args<'a> = A>, A>(v: &T, args: A) -> Result<Vec<u8>, binrw::Error> {
    let mut c = writer();
    v.write_le_args(&mut c, args)?;
    Ok(written(c))
}
/// Encoded DeviceSQL string with arbitrary content of `n` units: 0 short ASCII, 1 long ASCII, 2 wide, 3 ISRC (12).
pub fn sql(kind: u64, n: usize, name: &str) -> Vec<u8> {
    let mut v = Vec::new();
    match kind {
        0 => { v.push(((n + 1) << 1 | 1) as u8); }
        1 => { v.extend_from_slice(&[0x40, (n + 4) as u8, ((n + 4) >> 8) as u8, 0]); }
        2 => { v.extend_from_slice(&[0x90, (2 * n + 4) as u8, ((2 * n + 4) >> 8) as u8, 0]); }
        _ => { v.extend_from_slice(&[0x90, 18, 0, 0, 3]); }
    }
    let body = vec(match kind { 2 => 2 * n, 3 => 12, _ => n }, name);
    if kind == 3 { let mut ok = true; for b in &body { ok &= (*b != 0) & (*b < 0x80); } assume(ok); }
    v.extend_from_slice(&body);
    if kind == 3 { v.push(0); }
    v
}
/// Check that the debug form `s` shows `value` right after `label` (which occurs in its concrete part).
pub fn shows(s: &str, label: &str, value: &str) -> bool {
    match s.find(label) {
        Some(p) => {
            let r = &s.as_bytes()[p + label.len()..];
            r.len() > value.len() && same(&r[..value.len()], value.as_bytes()) && !r[value.len()].is_ascii_digit()
        }
        None => false,
    }
}
