//! C20: truncated input and failing readers.
use crate::frames::{same, verb_frame};
use crate::sym::*;
use crate::util::*;
use claxon::frame::FrameReader;
use claxon::input::BufferedReader;
use claxon::{Error, FlacReader};
use std::io::{self, Cursor, ErrorKind, Read};

/// Metadata with free contents, then frames: the bytes, the end of the metadata, the ends of the frames, the samples.
fn stream() -> (Vec<u8>, usize, Vec<usize>, Vec<Vec<Vec<i64>>>) {
    let mut v = b"fLaC".to_vec(); let si = streaminfo(16, 16, 2, 8, 3); meta_block(&mut v, false, 0, &si);
    // the order of the blocks, and the kind of the last one, varies
    let order = choose(5); let app = sym_vec(6); let t = bits(7) as u8; assume(t == 1 || t == 3 || (t >= 5 && t < 127)); let t = if order == 0 || order == 2 { t } else { pick(&[1u8, 3, 5, 6, 99]) };
    let mut b = Vec::new(); le32(&mut b, 2); b.extend_from_slice(b"ve"); le32(&mut b, 1); le32(&mut b, 4); b.extend_from_slice(b"a=xy");
    let (kinds, skipped): ([u8; 3], usize) = match order { 0 => ([2, t, 4], 3), 1 => ([4, 2, t], 3), 2 => ([t, 4, 2], 1), 3 => ([2, 4, t], 40), _ => ([4, 2, t], 0) };
    for (i, &k) in kinds.iter().enumerate() { let z = [7u8; 40]; let body = match k { 2 => &app[..], 4 => &b[..], _ => &z[..skipped] }; meta_block(&mut v, i == 2, k, body) }
    let meta = v.len(); let mut ends = Vec::new(); let mut want = Vec::new();
    for i in 0..2u64 { let (w, x) = if i == 0 { verb_frame(1, 2, 8, 0) } else { let mut w = frame_header(true, 5, 0, 8, &coded(2000)); sub_header(&mut w, T_FIXED, 1); w.put(0, 2); w.put(0, 4); w.put(3, 4); let mut xs = Vec::new(); for q in 0..5 { let r = rice_sym(q, 3, q & 1 == 1); r.put(&mut w, 3); xs.push(r.value(3) << 1) } (w, vec![xs]) };
        v.extend_from_slice(&frame_end(w)); ends.push(v.len()); want.push(x) }
    (v, meta, ends, want)
}
/// Every prefix of a stream: complete frames are delivered, a clean end only between frames, an unexpected end elsewhere.
pub fn c20_prefix() {
    let (v, meta, ends, want) = stream(); let cut = choose(v.len() as u32 + 1) as usize; let v = v[..cut].to_vec();
    let mut r = match FlacReader::new(Cursor::new(v)) { Ok(r) => { check(cut >= meta, "incomplete metadata is not accepted"); r } Err(e) => { reach("metadata"); check(cut < meta && err_class(&e) == EOF, "truncated metadata is an unexpected end"); return } };
    let mut b = r.blocks(); let mut i = 0; while i < 2 && ends[i] <= cut { match b.read_next_or_eof(Vec::new()) { Ok(Some(x)) => same(&x, &want[i]), _ => check(false, "complete frames are delivered") } i += 1 }
    let at = if i == 0 { meta } else { ends[i - 1] };
    match b.read_next_or_eof(Vec::new()) { Ok(None) => { reach("clean"); check(cut == at, "the end is clean only between frames") } Ok(Some(_)) => check(false, "an incomplete frame is not delivered"), Err(e) => { reach("frame"); check(cut > at && err_class(&e) == EOF, "a truncated frame is an unexpected end") } }
}
/// The same through iteration over samples.
pub fn c20_samples() {
    let (v, meta, ends, want) = stream(); let cut = meta + choose((v.len() - meta) as u32 + 1) as usize; let whole = cut == v.len() || cut == meta || cut == ends[0];
    let n = if cut >= ends[1] { 9 } else if cut >= ends[0] { 4 } else { 0 }; let v = v[..cut].to_vec(); let mut r = match FlacReader::new(Cursor::new(v)) { Ok(r) => r, _ => { check(false, "complete metadata is accepted"); return } };
    let mut it = r.samples(); for i in 0..n { match it.next() { Some(Ok(s)) => { let w = if i < 4 { want[0][i % 2][i / 2] } else { want[1][0][i - 4] }; check(s as i64 == w, "samples of complete frames are delivered") } _ => { check(false, "samples of complete frames are delivered"); return } } }
    match it.next() { None => { reach("clean"); check(whole, "the end is clean only between frames") } Some(Ok(_)) => check(false, "an incomplete frame is not delivered"), Some(Err(e)) => { reach("error"); check(!whole && err_class(&e) == EOF, "a truncated frame is an unexpected end"); check(it.next().is_none(), "then it ends") } }
}
struct Failing { data: Vec<u8>, pos: usize, fail: usize, kind: ErrorKind, step: usize }
impl Read for Failing { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { if self.pos >= self.fail { return Err(io::Error::from(self.kind)) } let n = self.step.min(b.len()).min(self.data.len() - self.pos).min(self.fail - self.pos); b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]); self.pos += n; Ok(n) } }
fn kind_of(e: &Error) -> Option<ErrorKind> { match *e { Error::IoError(ref e) => Some(e.kind()), _ => None } }
const KINDS: [ErrorKind; 16] = [ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::NotFound, ErrorKind::BrokenPipe, ErrorKind::ConnectionAborted,
    ErrorKind::ConnectionRefused, ErrorKind::InvalidData, ErrorKind::InvalidInput, ErrorKind::NotConnected, ErrorKind::AlreadyExists, ErrorKind::WriteZero, ErrorKind::OutOfMemory];
/// A reader that fails at any byte: what came before is delivered, the failure comes out with its kind.
pub fn c20_fault() {
    let (v, meta, ends, want) = stream(); let fail = choose(v.len() as u32 + 1) as usize; let kind = pick(&KINDS); let step = pick(&[1usize, 7, 5000]);
    let mut r = match FlacReader::new(Failing { data: v, pos: 0, fail, kind, step }) { Ok(r) => { check(fail >= meta, "incomplete metadata is not accepted"); r } Err(e) => { reach("metadata"); check(fail < meta && kind_of(&e) == Some(kind), "the failure of the reader comes out"); return } };
    let mut b = r.blocks(); let mut i = 0; while i < 2 && ends[i] <= fail { match b.read_next_or_eof(Vec::new()) { Ok(Some(x)) => same(&x, &want[i]), _ => { check(false, "complete frames are delivered"); return } } i += 1 }
    match b.read_next_or_eof(Vec::new()) { Err(e) => { reach("frame"); check(kind_of(&e) == Some(kind), "the failure of the reader comes out") } _ => check(false, "a failure of the reader is not taken for the end") }
}
/// Truncated predicted subframes: an unexpected end at every bit position of the byte stream.
pub fn c20_subframe() {
    let mut w = frame_header(false, 6, 1, 8, &[0]); let lpc = choose(2) == 1;
    if lpc { sub_header(&mut w, T_LPC + 1, 0); for _ in 0..2 { w.put(bits(8), 8) } w.put(4, 4); w.put(2, 5); for _ in 0..2 { w.put(bits(5), 5) } w.put(1, 2); w.put(1, 4); for p in 0..2 { w.put(6 + p, 5); for q in 0..if p == 0 { 1 } else { 3 } { rice_sym(q, 6 + p as u32, false).put(&mut w, 6 + p as u32) } } }
    else { sub_header(&mut w, T_FIXED + 3, 2); for _ in 0..3 { w.put(bits(6), 6) } w.put(0, 2); w.put(0, 4); w.put(9, 4); for q in 0..3 { rice_sym(q * 5, 9, true).put(&mut w, 9) } }
    put_const(&mut w, sbits(8), 8); let v = frame_end(w); let n = v.len(); let cut = choose(n as u32 + 1) as usize; let v = v[..cut].to_vec(); let buffered = choose(2) == 1;
    let c = if buffered { let mut r = FrameReader::new(BufferedReader::new(Cursor::new(v))); match r.read_next_or_eof(Vec::new()) { Ok(None) => 9, x => class(&x) } } else { let mut r = FrameReader::new(Cursor::new(v)); match r.read_next_or_eof(Vec::new()) { Ok(None) => 9, x => class(&x) } };
    if cut == 0 { check(c == 9, "no frame at all is a clean end") } else if cut == n { reach("whole"); check(c == OK, "a complete frame is decoded") } else { reach("cut"); check(c == EOF, "a truncated frame is an unexpected end") }
}
