//! Stand-ins for the file system calls of libc that std uses: files live in memory, and nothing of the
//! real file system is touched, neither in symbolic nor in native runs. Included by the harnesses that
//! run code working on paths.
#![allow(static_mut_refs)]
use std::ffi::{c_char, c_int, c_void};
extern "C" { fn __errno_location() -> *mut c_int; fn malloc(n: usize) -> *mut u8; }
const BASE: c_int = 1000;
const ENOENT: c_int = 2;
const EBADF: c_int = 9;
#[derive(Clone, PartialEq)]
pub enum Call { Create(Vec<u8>), Open(Vec<u8>), Dir(Vec<u8>), Other(Vec<u8>) }
struct File { path: Vec<u8>, data: Vec<u8> }
static mut FILES: Vec<File> = Vec::new();
static mut OPEN: Vec<(usize, usize)> = Vec::new();
static mut LOG: Vec<Call> = Vec::new();
static mut OUT: Vec<u8> = Vec::new();
static mut ERR: Vec<u8> = Vec::new();

/// puts a file there
pub fn put(path: &str, data: Vec<u8>) { unsafe { FILES.push(File { path: path.as_bytes().to_vec(), data }) } }
/// what has been done so far
pub fn log() -> &'static [Call] { unsafe { &LOG } }
/// content of the i-th file
pub fn file(i: usize) -> &'static [u8] { unsafe { &FILES[i].data } }
/// what has been printed
pub fn out() -> &'static [u8] { unsafe { &OUT } }
/// what has been printed to standard error
pub fn err() -> &'static [u8] { unsafe { &ERR } }
/// the n-th operation on the file system fails, and with `on` all later ones do
pub fn fail_at(n: u16, on: bool) { unsafe { FAULT = (n, 0, on); } }
/// whether it has
pub fn failed() -> bool { unsafe { FAULT.0 != 0 && FAULT.1 >= FAULT.0 } }
static mut FAULT: (u16, u16, bool) = (0, 0, false);
unsafe fn faulty() -> bool {
    if FAULT.0 == 0 { return false; }
    if FAULT.1 >= FAULT.0 { return FAULT.2; }
    FAULT.1 += 1;
    if FAULT.1 == FAULT.0 { FAULT.1 = FAULT.0; return true; }
    false
}
const EIO: c_int = 5;
pub fn files() -> usize { unsafe { FILES.len() } }

unsafe fn fail(e: c_int) -> c_int { *__errno_location() = e; -1 }
unsafe fn text(p: *const c_char) -> Vec<u8> {
    let mut v = Vec::new();
    let mut i = 0;
    loop {
        let c = *p.add(i) as u8;
        if c == 0 { return v; }
        v.push(c);
        i += 1;
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, _mode: c_int) -> c_int {
    let path = text(path);
    if faulty() { return fail(EIO); }
    if flags & 0o103 != 0 {
        // a file opened for writing starts out empty
        LOG.push(Call::Create(path.clone()));
        FILES.push(File { path, data: Vec::new() });
        OPEN.push((FILES.len() - 1, 0));
        return BASE + OPEN.len() as c_int - 1;
    }
    LOG.push(Call::Open(path.clone()));
    for i in 0..FILES.len() {
        if FILES[i].path == path { OPEN.push((i, 0)); return BASE + OPEN.len() as c_int - 1; }
    }
    fail(ENOENT)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut u8, n: usize) -> isize {
    if fd < BASE || (fd - BASE) as usize >= OPEN.len() { return fail(EBADF) as isize; }
    if faulty() { return fail(EIO) as isize; }
    let (f, at) = OPEN[(fd - BASE) as usize];
    let d = &FILES[f].data;
    let k = if at >= d.len() { 0 } else if d.len() - at < n { d.len() - at } else { n };
    for i in 0..k { *p.add(i) = d[at + i]; }
    OPEN[(fd - BASE) as usize].1 += k;
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const u8, n: usize) -> isize {
    // what goes to the terminal is kept
    if fd < BASE {
        let o = if fd == 2 { &mut ERR } else { &mut OUT };
        for i in 0..n { o.push(*p.add(i)); }
        return n as isize;
    }
    if (fd - BASE) as usize >= OPEN.len() { return fail(EBADF) as isize; }
    if faulty() { return fail(EIO) as isize; }
    let (f, at) = OPEN[(fd - BASE) as usize];
    let d = &mut FILES[f].data;
    for i in 0..n { if at + i < d.len() { d[at + i] = *p.add(i); } else { d.push(*p.add(i)); } }
    OPEN[(fd - BASE) as usize].1 += n;
    n as isize
}
#[repr(C)]
pub struct IoVec { p: *const u8, n: usize }
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    let mut k = 0;
    for i in 0..n as usize { k += write(fd, (*v.add(i)).p, (*v.add(i)).n); }
    k
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if fd < BASE || (fd - BASE) as usize >= OPEN.len() { return fail(EBADF) as i64; }
    if faulty() { return fail(EIO) as i64; }
    let (f, at) = OPEN[(fd - BASE) as usize];
    let base = match whence { 0 => 0, 1 => at as i64, _ => FILES[f].data.len() as i64 };
    match base.checked_add(off) { Some(x) if x >= 0 => { OPEN[(fd - BASE) as usize].1 = x as usize; x } _ => fail(22) as i64 }
}
#[no_mangle]
pub unsafe extern "C" fn close(_fd: c_int) -> c_int { 0 }
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, _mode: c_int) -> c_int {
    if faulty() { return fail(EIO); }
    LOG.push(Call::Dir(text(path)));
    0
}
/// every path is its own canonical form
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, _out: *mut c_char) -> *mut c_char {
    if faulty() { fail(EIO); return core::ptr::null_mut(); }
    let t = text(path);
    let p = malloc(t.len() + 1);
    for i in 0..t.len() { *p.add(i) = t[i]; }
    *p.add(t.len()) = 0;
    p as *mut c_char
}
macro_rules! other { ($($n:ident)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(path: *const c_char, _b: *const c_void) -> c_int { LOG.push(Call::Other(text(path))); fail(ENOENT) })* } }
other! { rename symlink link unlink rmdir stat64 lstat64 chmod chdir }
#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(_e: c_int, p: *mut u8, n: usize) -> c_int {
    let t = b"failed\0";
    for i in 0..t.len() { if i < n { *p.add(i) = t[i]; } }
    0
}
