//! Free text of some length, what lies before and behind a stream, failures far into a stream, memory over many blocks.
use crate::frames::{same, verb_frame};
use crate::meta::{bytes_eq, nocase};
use crate::sym::*;
use crate::util::*;
use claxon::frame::FrameReader;
use claxon::metadata::{read_metadata_block, GetTag, MetadataBlock, Tags};
use claxon::{FlacReader, FlacReaderOptions};
use std::io::{self, Cursor, ErrorKind, Read};

fn name(n: usize) -> Vec<u8> { let v = sym_vec(n); for &b in &v { assume(b >= 0x20 && b <= 0x7d && b != b'=') } v }
fn ascii(n: usize) -> Vec<u8> { let v = sym_vec(n); for &b in &v { assume(b < 0x80) } v }
/// Comments of a free name and value, of the lengths that names and values have: taken as they are, whatever they say.
pub fn c16_free() {
    let lens: &[(usize, usize, usize)] = if thorough() { &[(6, 0, 0), (22, 8, 4), (8, 24, 16), (3, 9, 33), (40, 3, 7), (12, 64, 0), (34, 30, 9)] } else { &[(6, 0, 0), (22, 8, 4), (8, 24, 16), (12, 3, 33)] };
    let (n, l, m) = pick(lens); let (n, v, x) = (name(n), ascii(l), ascii(m)); let two = choose(2) == 1;
    let mut c = n.clone(); c.push(b'='); c.extend_from_slice(&v); let mut b = Vec::new(); le32(&mut b, m as u32); b.extend_from_slice(&x); le32(&mut b, 1 + two as u32); le32(&mut b, c.len() as u32); b.extend_from_slice(&c); if two { le32(&mut b, c.len() as u32); b.extend_from_slice(&c) }
    let r = match read_metadata_block(&mut Cursor::new(&b[..]), 4, b.len() as u32) { Ok(MetadataBlock::VorbisComment(r)) => r, _ => { check(false, "a well-formed comment block is accepted"); return } };
    bytes_eq(r.vendor.as_bytes(), &x, "the vendor string as stored"); check(r.comments.len() == 1 + two as usize, "all comments, also repeated ones");
    for (s, p) in &r.comments { check(*p == n.len(), "the separator"); bytes_eq(s.as_bytes(), &c, "the comment as stored") }
    for (a, z) in Tags::new(&r.comments) { bytes_eq(a.as_bytes(), &n, "the name"); bytes_eq(z.as_bytes(), &v, "the value") } reach("free");
}
/// Free names, looked up by free needles of about the same length.
pub fn c21_free() {
    let n = pick(&[5usize, 8, 12, 22]); let a = name(n); let d = match choose(4) { 0 => n - 1, 1 => n + 1, _ => n }; let b = ascii(d); let mut c = a.clone(); c.push(b'='); let v = ascii(2); c.extend_from_slice(&v);
    let (s, nd) = match (String::from_utf8(c), std::str::from_utf8(&b)) { (Ok(s), Ok(n)) => (s, n), _ => { check(false, "utf-8"); return } }; let cs = vec![(s.clone(), n), (s, n)]; let want = nocase(&a, &b);
    let mut g = GetTag::new(&cs, nd); if want { reach("match"); for _ in 0..2 { match g.next() { Some(x) => bytes_eq(x.as_bytes(), &v, "the value of every matching comment"), None => check(false, "no matching comment is left out") } } } else { reach("other") } check(g.next().is_none(), "no other comment matches");
}
/// Anything before the marker makes it something else than a FLAC stream.
pub fn c19_prefix() {
    let n = pick(&[1usize, 2, 4, 5, 8, 10, 12, 14, 16]); let mut v = sym_vec(n); let rest = pick(&[0usize, 3, 10]); for _ in 0..rest { v.push(0) }
    v.extend_from_slice(&stream_start(16, 16, 1, 8)); assume(!(v[0] == b'f' && v[1] == b'L' && v[2] == b'a' && v[3] == b'C'));
    let o = FlacReaderOptions { metadata_only: choose(2) == 1, read_vorbis_comment: true }; check(class(&FlacReader::new_ext(Cursor::new(v), o)) == FMT, "a stream that does not begin with the marker is refused"); reach("prefix");
}
/// What lies behind the last frame is not passed over, and not taken for the end.
pub fn c20_trailing() {
    let k = choose(3); let mut v = stream_start(16, 16, 2, 8); let mut want = Vec::new(); for i in 0..k { let (w, x) = verb_frame(1, 2, 8, i as u64); v.extend_from_slice(&frame_end(w)); want.push(x) }
    let n = pick(&[1usize, 2, 3, 4, 5, 6, 8, 9]); let t = sym_vec(n); let long = n > 1 && choose(2) == 1; v.extend_from_slice(&t); let sync = n > 1 && t[0] == 0xff && t[1] & 0xfc == 0xf8;
    if n > 4 || k > 1 { assume(!sync) } if long { assume(!sync); let more = pick(&[0usize, 1, 4, 128, 3000]); let f = pick(&[0u8, 0xff, b' ']); for _ in 0..more { v.push(f) } let (w, _) = verb_frame(1, 2, 8, k as u64); v.extend_from_slice(&frame_end(w)) }
    let mut r = match FlacReader::new(Cursor::new(v)) { Ok(r) => r, _ => { check(false, "complete metadata is accepted"); return } };
    if choose(2) == 0 {
        let mut b = r.blocks(); for x in &want { match b.read_next_or_eof(Vec::new()) { Ok(Some(b)) => same(&b, x), _ => check(false, "complete frames are delivered") } }
        let c = match b.read_next_or_eof(Vec::new()) { Ok(None) => 9, x => class(&x) }; check(c != 9, "the end is clean only between frames"); check(c != OK, "no frame where there is none"); if !sync && n > 1 { check(c == FMT, "what is not a frame is a format error") } }
    else { let mut it = r.samples(); for x in &want { for i in 0..2 { for c in 0..2 { match it.next() { Some(Ok(s)) => check(s as i64 == x[c][i], "complete frames are delivered"), _ => { check(false, "complete frames are delivered"); return } } } } }
        match it.next() { Some(Err(e)) => if !sync && n > 1 { check(err_class(&e) == FMT, "what is not a frame is a format error") }, Some(Ok(_)) => check(false, "no sample where there is none"), None => check(false, "the end is clean only between frames") } check(it.next().is_none(), "then it ends") }
    reach("trailing");
}
struct Fails { data: Vec<u8>, pos: usize, kind: Option<ErrorKind>, step: usize }
impl Read for Fails { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = self.step.min(b.len()).min(self.data.len() - self.pos); if n == 0 { return match self.kind { Some(k) => Err(io::Error::from(k)), None => Ok(0) } } b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]); self.pos += n; Ok(n) } }
/// The end or a failure far into a stream, at every byte around a frame boundary and around the internal buffer.
pub fn c20_deep() {
    let k = if thorough() { pick(&[30u64, 64, 129]) } else { pick(&[30u64, 129]) }; let mut v = stream_start(16, 16, 1, 8); let mut ends = Vec::new(); let x = sbits(8);
    for i in 0..k { let mut w = frame_header(false, 40, 0, 8, &coded(i)); if i % 4 == 3 { put_const(&mut w, if i + 3 >= k { x } else { i as i64 % 100 }, 8) } else { let mut xs = Vec::new(); for j in 0..40 { xs.push((i as i64 * 7 + j) % 120) } xs[39] = if i + 3 >= k { x } else { 1 }; put_verbatim(&mut w, &xs, 8) } v.extend_from_slice(&frame_end(w)); ends.push(v.len()) }
    let at = if choose(2) == 0 || v.len() < 2112 { let e = ends[pick(&[(k - 1) as usize, (k - 2) as usize, (k / 2) as usize])]; e - choose(14) as usize } else { 2048 - 8 + choose(17) as usize }; v.truncate(at);
    let whole = ends.iter().filter(|&&e| e <= at).count(); let clean = whole > 0 && ends[whole - 1] == at;
    let kind = pick(&[None, Some(ErrorKind::Other), Some(ErrorKind::WouldBlock), Some(ErrorKind::UnexpectedEof)]); let src = Fails { data: v, pos: 0, kind, step: pick(&[1usize, 13, 2048, 1 << 20]) };
    let mut r = match FlacReader::new(src) { Ok(r) => r, _ => { check(false, "complete metadata is accepted"); return } };
    let ok = |e: &claxon::Error| match kind { None => err_class(e) == EOF, Some(k) => match *e { claxon::Error::IoError(ref e) => e.kind() == k, _ => false } };
    match if thorough() { choose(3) } else { at as u32 % 3 } {
        0 => { let mut b = r.blocks(); let mut buf = Vec::new(); for i in 0..whole { match b.read_next_or_eof(buf) { Ok(Some(b)) => { check(b.time() == 16 * i as u64 && b.duration() == 40, "complete frames are delivered"); if i as u64 + 3 >= k { check(b.sample(0, 39) as i64 == x, "complete frames are delivered") } buf = b.into_buffer() } _ => { check(false, "complete frames are delivered"); return } } }
            match b.read_next_or_eof(buf) { Ok(None) => { reach("clean"); check(clean && kind.is_none(), "the end is clean only between frames") } Ok(Some(_)) => check(false, "an incomplete frame is not delivered"), Err(e) => { reach("error"); check(!(clean && kind.is_none()), "between frames the end is clean"); check(ok(&e), "a truncated frame is an unexpected end, a failure comes out") } } }
        how => { let mut n = 0; let mut end = 0; let mut f = |s: claxon::Result<i32>| match s { Ok(_) => { check(end == 0, "nothing behind the error"); n += 1 } Err(e) => { end += 1; check(ok(&e), "a truncated frame is an unexpected end, a failure comes out") } }; if how == 1 { for s in r.samples() { f(s) } } else { for s in r.into_samples() { f(s) } }
            check(n == 40 * whole, "the samples of complete frames are delivered"); check(end == !(clean && kind.is_none()) as u32, "an error exactly when the stream is not complete"); reach(if end == 1 { "error" } else { "clean" }) }
    }
}
/// Iterating over the samples of many blocks needs no more memory than the largest of them.
pub fn c18_samples() {
    crate::meta::warm(); let mut v = stream_start(16, 4096, 2, 8); let k = pick(&[3u64, 20]); let mut most = 0; let mut n = 0u64; let shapes = [(0u64, 512u32), (1, 192), (7, 256), (1, 700)];
    for i in 0..k { let (ch, bs) = if k == 3 { pick(&shapes) } else { shapes[(i % 4) as usize] }; let mut w = frame_header(false, bs, ch, 8, &coded(i)); for _ in 0..ch + 1 { put_const(&mut w, if i + 1 == k { sbits(8) } else { 5 }, 8) } v.extend_from_slice(&frame_end(w)); most = most.max(4 * bs as u64 * (ch + 1)); n += bs as u64 * (ch + 1) }
    let cut = choose(2) == 1; if cut { v.pop(); } let how = choose(2); let r = match FlacReader::new(Cursor::new(&v[..])) { Ok(r) => r, _ => { check(false, "complete metadata is accepted"); return } };
    alloc_limit(4 * most + 16384); let mut c = 0; let mut bad = 0; let mut r = r; if how == 0 { for s in r.samples() { if s.is_ok() { c += 1 } else { bad += 1 } } } else { for s in r.into_samples() { if s.is_ok() { c += 1 } else { bad += 1 } } }
    check(if cut { bad == 1 && c < n } else { bad == 0 && c == n }, "every sample"); reach("samples");
}
/// Frames read one by one from one reader: whatever a frame was like, the next begins right behind it.
pub fn c12_follow() {
    let mut w = frame_header(false, 3, 0, 8, &[0]); let kind = choose(6); let mut want = None;
    match kind { 0 => { let x = sbits(8); put_const(&mut w, x, 8); want = Some(x) } 1 => { let x = sbits(8); put_verbatim(&mut w, &[1, 2, x], 8); want = Some(x) } 2 => { sub_header(&mut w, T_FIXED, 0); w.put(0, 6); w.put(0, 4); w.put(0b1_01_001, 6); w.put(0, 0) } 3 => { sub_header(&mut w, pick(&[2u64, 7, 13, 20, 31]), 0); put_s(&mut w, sbits(8), 8) } 4 => { w.put(1, 1); w.put(bits(7), 7); w.put(bits(8), 8) } _ => { put_const(&mut w, sbits(8), 8) } }
    let mut v = frame_end(w); let n = v.len(); if kind == 5 { let x = byte(); assume(x != 0); v[n - 1 - choose(2) as usize] ^= x }
    let (f, x) = verb_frame(1, 2, 8, 1); v.extend_from_slice(&frame_end(f)); let total = v.len() as u64;
    let mut r = FrameReader::new(Cursor::new(v)); let a = r.read_next_or_eof(Vec::new()); let c = match a { Ok(None) => 9, ref x => class(x) };
    if kind <= 2 { check(c == OK, "a complete frame is decoded"); if let (Some(x), Ok(Some(b))) = (want, &a) { check(b.sample(0, 2) as i64 == x, "its samples") } match r.read_next_or_eof(Vec::new()) { Ok(Some(b)) => same(&b, &x), _ => check(false, "the next frame follows") } check(r.into_inner().position() == total, "exactly the frames are consumed"); reach("good") }
    else { check(c == FMT, "a damaged frame is refused"); if kind == 5 { match r.read_next_or_eof(Vec::new()) { Ok(Some(b)) => same(&b, &x), _ => check(false, "a frame with a wrong checksum has been consumed whole") } } reach("bad") }
}
/// Longer text of characters of several bytes at every alignment: whole it is taken as it is, cut or broken it is refused.
pub fn c16_wide() {
    let w = 2 + choose(3) as usize; let lead = choose(w as u32) as usize; let chars = if thorough() { pick(&[3usize, 7, 12, 16, 22, 33, 60, 65, 86, 130, 257]) } else { pick(&[3usize, 7, 12, 22, 33, 65, 130]) }; let mut t = Vec::new(); for i in 0..lead { t.push(b'a' + i as u8) }
    let spot = pick(&[0usize, chars / 2, chars - 1]);
    for i in 0..chars { let x = if i == spot { bits(6) as u8 } else { (i * 7 % 64) as u8 }; let y = if i == spot || i + 1 == chars { bits(6) as u8 } else { (i * 5 % 64) as u8 }; match w { 2 => { t.push(0xc3); t.push(0x80 | y) } 3 => { t.push(0xe2); t.push(0x80 | x); t.push(0x80 | y) } _ => { t.push(0xf1); t.push(0x80 | x); t.push(0x80 | x); t.push(0x80 | y) } } }
    let how = choose(4); match how { 1 => { let n = t.len(); t.truncate(n - 1 - choose(w as u32 - 1) as usize) } 2 => { let b = byte(); assume(b & 0xc0 != 0x80); let p = lead + spot * w + 1 + choose(w as u32 - 1) as usize; t[p] = b } 3 => { let p = lead + spot * w; let b = byte(); assume(b & 0xc0 == 0x80 || b >= 0xf8); t[p] = b } _ => {} }
    let place = choose(3); let mut v = b"v".to_vec(); let mut c = b"LYRICS=".to_vec(); let mut sep = 6; match place { 0 => v = t, 1 => c.extend_from_slice(&t), _ => { c = t; sep = c.len(); c.extend_from_slice(b"=x") } }
    let mut b = Vec::new(); le32(&mut b, v.len() as u32); b.extend_from_slice(&v); le32(&mut b, 2); le32(&mut b, c.len() as u32); b.extend_from_slice(&c); le32(&mut b, 3); b.extend_from_slice(b"k=w");
    match read_metadata_block(&mut Cursor::new(&b[..]), 4, b.len() as u32) {
        Ok(MetadataBlock::VorbisComment(r)) => { check(how == 0 && place != 2, "text that is not UTF-8 and names that are not ASCII are refused"); bytes_eq(r.vendor.as_bytes(), &v, "the vendor string as stored"); check(r.comments.len() == 2 && r.comments[0].1 == sep, "the comments as stored"); bytes_eq(r.comments[0].0.as_bytes(), &c, "the comment as stored"); let mut g = GetTag::new(&r.comments, "Lyrics"); check(g.next().map(|x| x.len()) == Some(c.len() - 7), "lookup"); reach("accepted") }
        Ok(_) => check(false, "a comment block is a comment block"), Err(e) => { check(how != 0 || place == 2, "a well-formed comment block is accepted"); check(err_class(&e) == FMT, "a broken comment block is a format error"); reach("refused") }
    }
}
