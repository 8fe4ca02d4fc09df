#![no_main]
//! C29: the masking stream.
use binrw::io::{Read, Seek, SeekFrom, Write};
use harness::*;
use rekordcrate::verif_hooks::XorStream;
use std::io::{Error, ErrorKind};

/// A stream in memory that transfers as much as it likes: any number of bytes up to what is asked for, or fails.
struct Part { data: Vec<u8>, pos: usize, partial: bool, fails: bool, failed: bool }
impl Part {
    fn new(data: Vec<u8>, partial: bool, fails: bool) -> Part { Part { data, pos: 0, partial, fails, failed: false } }
    fn amount(&mut self, most: usize) -> std::io::Result<usize> {
        if self.fails && !self.failed && choose(2, "fails") == 1 { self.failed = true; return Err(Error::from(ErrorKind::Interrupted)); }
        if self.partial && most > 0 { return Ok(1 + choose(most as u64, "amount") as usize); }
        Ok(most)
    }
}
impl Read for Part {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let most = b.len().min(self.data.len() - self.pos.min(self.data.len()));
        let n = self.amount(most)?;
        for i in 0..n { b[i] = self.data[self.pos + i]; }
        self.pos += n;
        Ok(n)
    }
}
impl Write for Part {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.amount(b.len())?;
        for i in 0..n { if self.pos + i < self.data.len() { self.data[self.pos + i] = b[i]; } else { self.data.push(b[i]); } }
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl Seek for Part {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let to = match p { SeekFrom::Start(x) => x as i64, SeekFrom::Current(d) => self.pos as i64 + d, SeekFrom::End(d) => self.data.len() as i64 + d };
        if to < 0 { return Err(Error::from(ErrorKind::InvalidInput)); }
        self.pos = to as usize;
        Ok(to as u64)
    }
}
fn at(key: &[u8], i: usize) -> u8 { if key.is_empty() { 0 } else { key[i % key.len()] } }

harnesses! {
    // single reads of any size; params: key length, stream length, reads, largest request, partial, failing
    fn h_read() {
        let (k, n, m, max) = (param(0) as usize, param(1) as usize, param(2), param(3));
        let key = vec(k, "key");
        let data = vec(n, "data");
        let mut s = XorStream::with_key(Part::new(data.clone(), param(4) == 1, param(5) == 1), key.clone());
        let mut pos = 0;
        for _ in 0..m {
            let ask = choose(max + 1, "ask") as usize;
            let before = vec(ask, "buffer");
            let mut b = before.clone();
            match s.read(&mut b) {
                Ok(got) => {
                    check(got <= ask && pos + got <= n, "no more is read than there is");
                    if got > ask || pos + got > n { return; }
                    for i in 0..got { check(b[i] == data[pos + i] ^ at(&key, pos + i), "every byte read is masked with the key byte of its position"); }
                    check(same(&b[got..], &before[got..]), "the buffer beyond what was read is not touched");
                    pos += got;
                    if got > 0 { reach("read"); }
                }
                Err(_) => { check(same(&b, &before), "a failed read leaves the buffer alone"); reach("opt:failed"); }
            }
        }
    }
    // writes; params: key length, writes, largest write, partial, failing
    fn h_write() {
        let (k, m, max) = (param(0) as usize, param(1), param(2));
        let key = vec(k, "key");
        let mut part = Part::new(Vec::new(), param(3) == 1, param(4) == 1);
        let mut want = Vec::new();
        {
            let mut s = XorStream::with_key(&mut part, key.clone());
            for _ in 0..m {
                let b = vec(choose(max + 1, "give") as usize, "data");
                match s.write(&b) {
                    Ok(n) => { check(n <= b.len(), "no more is written than given"); for i in 0..n.min(b.len()) { let p = want.len(); want.push(b[i] ^ at(&key, p)); } if n > 0 { reach("written"); } }
                    Err(_) => reach("opt:failed"),
                }
            }
            check(s.flush().is_ok(), "flushed");
        }
        check(part.data.len() == want.len() && same(&part.data, &want), "every byte written is masked with the key byte of its position");
    }
    // reading what was written, whole buffers over a stream that transfers any amount; params: key length, bytes, partial while writing, while reading, failing
    fn h_round() {
        let (k, n) = (param(0) as usize, param(1) as usize);
        let key = vec(k, "key");
        let data = vec(n, "data");
        let mut part = Part::new(Vec::new(), param(2) == 1, param(4) == 1);
        check(XorStream::with_key(&mut part, key.clone()).write_all(&data).is_ok(), "all data is written");
        check(part.data.len() == n, "all data arrives");
        let stored = part.data.clone();
        for i in 0..n { check(stored[i] == data[i] ^ at(&key, i), "stored data is masked"); }
        let mut s = XorStream::with_key(Part::new(stored, param(3) == 1, param(4) == 1), key);
        let mut b = std::vec![0u8; n];
        check(s.read_exact(&mut b).is_ok(), "all data is read");
        check(same(&b, &data), "reading what was written gives the original data");
        reach("round");
    }
    // seeking; params: key length, stream length, partial
    fn h_seek() {
        let (k, n) = (param(0) as usize, param(1) as usize);
        let key = vec(k, "key");
        let data = vec(n, "data");
        let mut s = XorStream::with_key(Part::new(data.clone(), param(2) == 1, false), key.clone());
        let mut pos = 0usize;
        for _ in 0..2 {
            let to = choose(n as u64 + 1, "to") as usize;
            let r = match choose(3, "whence") { 0 => s.seek(SeekFrom::Start(to as u64)), 1 => s.seek(SeekFrom::Current(to as i64 - pos as i64)), _ => s.seek(SeekFrom::End(to as i64 - n as i64)) };
            check(matches!(r, Ok(p) if p == to as u64), "seeking goes where asked");
            pos = to;
            let mut b = [0u8; 3];
            match s.read(&mut b) {
                Ok(got) => { for i in 0..got { check(b[i] == data[pos + i] ^ at(&key, pos + i), "after seeking every byte is masked with the key byte of its position"); } pos += got; reach("seek"); }
                Err(_) => check(false, "read after seeking"),
            }
        }
    }
}
