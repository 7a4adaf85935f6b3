//! C03: byte-level reading from memory and through the buffered reader.
use crate::sym::*;
use crate::util::*;
use claxon::input::{BufferedReader, ReadBytes};
use std::io::{self, Cursor, Read};

/// Hands out the data in pieces; `plan[i]` bytes on the i-th call (0: as many as fit), fails on call `fail_at`.
pub struct Pieces { pub data: Vec<u8>, pub pos: usize, pub plan: Vec<usize>, pub call: usize, pub fail_at: Option<usize>, pub kind: io::ErrorKind, pub failed: bool, pub after_end: bool }
impl Pieces { pub fn new(data: Vec<u8>, plan: Vec<usize>) -> Pieces { Pieces { data, pos: 0, plan, call: 0, fail_at: None, kind: io::ErrorKind::Other, failed: false, after_end: false } } }
impl Read for Pieces {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let c = self.call; self.call += 1;
        if self.fail_at == Some(c) { self.failed = true; return Err(io::Error::from(self.kind)); }
        let want = if c < self.plan.len() && self.plan[c] != 0 { self.plan[c] } else { b.len() };
        let left = self.data.len() - self.pos; let n = want.min(b.len()).min(left);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]); self.pos += n; Ok(n)
    }
}

/// One operation against the model (data, position). Returns the new position or the class of error seen.
fn op<R: ReadBytes>(r: &mut R, d: &[u8], pos: usize, which: u32, n: usize) -> Result<usize, (u32, usize)> {
    let have = d.len() - pos;
    let be = |k: usize| { let mut v = 0u64; let mut i = 0; while i < k { v = v << 8 | d[pos + i] as u64; i += 1; } v };
    let num = |k: usize, r: io::Result<u64>, le: bool| -> Result<usize, (u32, usize)> { match r {
        Ok(v) => { check(have >= k, "a number is not read past the end"); let e = if le { (be(4) as u32).swap_bytes() as u64 } else { be(k) }; check(v == e, "a number is assembled in the right byte order"); observe(v); Ok(pos + k) }
        Err(e) => Err((io_class(&e), k)) } };
    match which {
        0 => num(1, r.read_u8().map(|x| x as u64), false),
        1 => num(2, r.read_be_u16().map(|x| x as u64), false),
        2 => num(3, r.read_be_u24().map(|x| x as u64), false),
        3 => num(4, r.read_be_u32().map(|x| x as u64), false),
        4 => num(4, r.read_le_u32().map(|x| x as u64), true),
        5 => match r.read_u8_or_eof() {
            Ok(Some(v)) => { check(have >= 1 , "no byte past the end"); check(v == d[pos], "the next byte"); observe(v as u64); Ok(pos + 1) }
            Ok(None) => { check(have == 0, "end of stream is reported only at the end"); Ok(pos) }
            Err(e) => Err((io_class(&e), 1)) },
        6 => match r.read_be_u16_or_eof() {
            Ok(Some(v)) => { check(have >= 2, "no number past the end"); check(v as u64 == be(2), "the next number"); observe(v as u64); Ok(pos + 2) }
            Ok(None) => { check(have == 0, "end of stream is reported only when no byte is left"); Ok(pos) }
            Err(e) => Err((io_class(&e), 2)) },
        7 => { let mut b = vec![0xeeu8; n]; match r.read_into(&mut b) {
            Ok(()) => { check(have >= n, "a block is not read past the end"); let mut i = 0; while i < n { check(b[i] == d[pos + i], "a block read fills the buffer with the next bytes"); i += 1; } Ok(pos + n) }
            Err(e) => Err((io_class(&e), n)) } }
        _ => match r.skip(n as u32) {
            Ok(()) => { check(have >= n, "data is not skipped past the end"); Ok(pos + n) }
            Err(e) => Err((io_class(&e), n)) },
    }
}
fn end_ok(e: (u32, usize), have: usize) { check(e.0 == EOF, "running out of data is an unexpected-end error"); check(e.1 > have, "an operation that fits does not fail"); reach("eof"); }
fn ops<R: ReadBytes>(r: &mut R, d: &[u8], k: u32, sizes: &[usize]) {
    let mut pos = 0;
    for _ in 0..k {
        let which = choose(9); let n = if which >= 7 { pick(sizes) } else { 0 };
        match op(r, d, pos, which, n) { Ok(p) => pos = p, Err(e) => { end_ok(e, d.len() - pos); return; } }
    }
    reach("done");
}
/// In-memory reader.
pub fn c03_cursor() {
    let len = choose(8) as usize; let d = sym_vec(len);
    if choose(2) == 0 { let mut c = Cursor::new(d.clone()); ops(&mut c, &d, 3, &[0, 1, 2, 5]); }
    else { let mut c = Cursor::new(&d[..]); let mut r = &mut c; ops(&mut r, &d, 2, &[0, 1, 3]); }
}
/// Any position, including far beyond the end: operations fail cleanly.
pub fn c03_cursor_far() {
    let d = sym_vec(3); let mut c = Cursor::new(&d[..]);
    let p = bits(64); assume(p >= 3); c.set_position(p);
    let which = choose(9); let n = pick(&[1usize, 2, 7]);
    match which {
        0 => check(c.read_u8().is_err(), "nothing past the end"), 1 => check(c.read_be_u16().is_err(), "nothing past the end"), 2 => check(c.read_be_u24().is_err(), "nothing past the end"),
        3 => check(c.read_be_u32().is_err(), "nothing past the end"), 4 => check(c.read_le_u32().is_err(), "nothing past the end"),
        5 => check(c.read_u8_or_eof().unwrap().is_none(), "end of stream past the end"), 6 => check(c.read_be_u16_or_eof().unwrap().is_none(), "end of stream past the end"),
        7 => { let mut b = vec![0u8; n]; check(c.read_into(&mut b).is_err(), "nothing past the end") }
        _ => check(c.skip(n as u32).is_err(), "nothing past the end"),
    }
    check(c.position() == p, "a failed operation past the end does not move"); reach("done");
}
/// In-memory data of more than 64 KiB: every operation at, before and behind every boundary.
pub fn c03_cursor_long() {
    let len = pick(&[65535usize, 65536, 65540, 131075, 200000]); let mut d = vec![0u8; len]; for i in 0..len { d[i] = (i * 13 + i / 256 * 5) as u8 }
    let a = pick(&[0usize, 1, 255, 65530, 65535, 65536, 65537, 131070, 131072, len - 3, len]); if a > len { return } for i in 0..4 { if a + i < len { d[a + i] = byte() } }
    let mut c = Cursor::new(&d[..]); match choose(3) { 0 => c.set_position(a as u64), 1 => check(c.skip(a as u32).is_ok(), "an operation that fits does not fail"), _ => { let mut b = vec![0u8; a]; check(c.read_into(&mut b).is_ok(), "an operation that fits does not fail"); let mut i = 0; while i < a { check(b[i] == d[i], "a block read fills the buffer with the next bytes"); i += 1 } } }
    let have = len - a; let which = choose(9); let n = if which >= 7 { pick(&[0usize, 1, 4, 256, 65535, 65536, 65537, have, have + 1]) } else { 0 };
    match op(&mut c, &d, a, which, n) { Ok(p) => { check(c.position() == p as u64, "the position moves by what was consumed"); if p < len { check(c.read_u8().ok() == Some(d[p]), "the next byte follows") } else { check(c.read_u8().is_err(), "nothing past the end") } reach("done") } Err(e) => end_ok(e, have) }
}
/// Buffered reader over a source that delivers in arbitrary pieces.
pub fn c03_pieces() {
    let len = if thorough() { choose(8) as usize } else { pick(&[0usize, 1, 3, 4, 6]) }; let d = sym_vec(len);
    let plan = vec![choose(4) as usize, choose(3) as usize, choose(3) as usize, 1];
    let mut r = BufferedReader::new(Pieces::new(d.clone(), plan));
    ops(&mut r, &d, if thorough() { 3 } else { 2 }, &[0, 1, 2, 5]);
}
/// Operations straddling the internal buffer, whatever its size up to 4 KiB: long prefix, symbolic bytes around each boundary.
pub fn c03_boundary() {
    let len = 4200usize; let mut d = vec![0u8; len]; for i in 0..len { d[i] = (i * 7 + i / 256) as u8; }
    let b = pick(&[2048usize, 4096]); for i in b - 5..b + 6 { d[i] = byte(); }
    let start = b - choose(5) as usize;
    let mut r = BufferedReader::new(Cursor::new(d.clone()));
    let how = choose(2);
    if how == 0 { r.skip(start as u32).unwrap(); } else { let mut v = vec![0u8; start]; r.read_into(&mut v).unwrap(); let mut i = 0; while i < start { check(v[i] == d[i], "a long block read returns the data"); i += 1; } }
    let which = choose(9); let n = if which >= 7 { pick(&[1usize, 3, 4, 6, 100]) } else { 0 };
    match op(&mut r, &d, start, which, n) { Ok(p) => { check(op(&mut r, &d, p, 0, 0).is_ok(), "the byte after the boundary follows"); reach("done") } Err(_) => check(false, "a read inside the data does not fail") }
}
/// Long skips and block reads, in whole and split amounts.
pub fn c03_long() {
    let len = 10000usize; let mut d = vec![0u8; len]; for i in 0..len { d[i] = (i * 13 + i / 256 * 5) as u8; }
    let piece = pick(&[0usize, 1000, 2047, 2048, 5]);
    let a = pick(&[0usize, 1, 2047, 2048, 2049, 4095, 4096, 5000, 9000]); let kind = choose(2); let n = pick(&[0usize, 1, 2048, 2049, 900, 4097]);
    for i in 0..4 { if a + i < len { d[a + i] = byte(); } if a + n + i < len { d[a + n + i] = byte(); } }
    let mut r = BufferedReader::new(Pieces::new(d.clone(), vec![piece; 40]));
    r.skip(a as u32).unwrap();
    match op(&mut r, &d, a, 7 + kind, n) {
        Ok(p) => { check(op(&mut r, &d, p, 3, 0).is_ok(), "the next number follows"); reach("done") }
        Err(e) => { end_ok(e, len - a) }
    }
}
/// A failing source: the error is passed on, and later reads never deliver bytes a second time or out of order.
pub fn c03_faults() {
    let len = 6usize; let d = sym_vec(len);
    let plan = vec![choose(4) as usize, choose(3) as usize, 2, 1];
    let mut p = Pieces::new(d.clone(), plan); p.fail_at = Some(choose(4) as usize); p.kind = if choose(2) == 0 { io::ErrorKind::Other } else { io::ErrorKind::Interrupted };
    let mut r = BufferedReader::new(Counting { p, seen: 0 });
    let mut pos = 0; let mut failed = false;
    for _ in 0..3 {
        let which = choose(9); let n = if which >= 7 { pick(&[1usize, 3]) } else { 0 };
        match op(&mut r, &d, pos, which, n) {
            Ok(p) => { pos = p; if failed { reach("resumed") } }
            Err((c, k)) => {
                if c == EOF { check(k > len - pos, "an operation that fits does not report the end"); reach("eof"); return; }
                check(!failed, "one fault causes one error"); failed = true; reach("fault");
                // what the source had delivered before the fault is gone with the failed operation when it is longer than one byte
                let delivered = unsafe { DELIVERED };
                check(k > delivered - pos, "a fault surfaces only when more data is needed");
                pos = delivered;
            }
        }
    }
    reach("done");
}
static mut DELIVERED: usize = 0;
struct Counting { p: Pieces, seen: usize }
impl Read for Counting { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = self.p.read(b)?; self.seen += n; unsafe { DELIVERED = self.seen; } Ok(n) } }
/// A source that claims more bytes than the buffer holds must not lead to reads outside the buffer.
pub fn c03_liar() {
    struct Liar { extra: usize, n: u32 }
    impl Read for Liar { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.n += 1; if self.n > 2 { return Ok(0); } Ok(b.len() + self.extra) } }
    let extra = pick(&[1usize, 100, 1 << 32]); expect_panic(true); reach("liar");
    let mut r = BufferedReader::new(Liar { extra, n: 0 });
    let pre = pick(&[0u32, 2047, 2048]);
    if r.skip(pre).is_ok() { for _ in 0..3 { match choose(3) { 0 => { let _ = r.read_u8(); } 1 => { let _ = r.read_u8_or_eof(); } _ => { let mut b = [0u8; 4]; let _ = r.read_into(&mut b); } } } }
}
