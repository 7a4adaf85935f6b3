//! Errors (C24), and sizes and quantities far from the smallest for several properties.
use crate::byteio::Pieces;
use crate::meta::{be, bytes_eq};
use crate::sym::*;
use crate::util::*;
use claxon::frame::FrameReader;
use claxon::input::{BufferedReader, ReadBytes};
use claxon::metadata::{read_metadata_block, read_metadata_block_with_header, GetTag, MetadataBlock, MetadataBlockReader, Tags};
use claxon::{Error, FlacReader, FlacReaderOptions};
use std::io::{self, Cursor, ErrorKind};

// ---------------------------------------------------------------- C07
/// The public sign extension, for every width and value.
pub fn c07_extend() {
    let b = 1 + choose(32); let v = bits(b) as u32; let x = claxon::subframe::extend_sign_u32(v, b);
    let want = if (v as u64) >> (b - 1) == 1 { v as i64 - (1i64 << b) } else { v as i64 }; check(x as i64 == want, "the value of a two's complement number of any width"); reach("extend");
}

// ---------------------------------------------------------------- C03
/// Skipping and reading large amounts through the internal buffer.
pub fn c03_far() {
    let n = pick(&[2047u32, 2048, 2049, 65535, 65536, 65537, 131071, 1 << 20, (1 << 24) - 1]); let lead = pick(&[0usize, 1, 2047]); let step = pick(&[0usize, 1000, 4096]); if n > 200000 && (lead == 1 || step == 1000) { return }
    let total = lead + n as usize; let mut d = vec![0x5a; total + 3]; for i in 0..3 { d[total + i] = byte() } let tail = [d[total], d[total + 1], d[total + 2]];
    let mut plan = Vec::new(); if step > 0 { plan = vec![step; total / step.min(2048) + 4] }
    let mut r = BufferedReader::new(Pieces::new(d, plan)); for _ in 0..lead { check(r.read_u8().is_ok(), "a byte that is there is read") }
    match choose(2) { 0 => check(r.skip(n).is_ok(), "what is there can be skipped"), _ => { if n > 200000 { return } let mut b = vec![0u8; n as usize]; check(r.read_into(&mut b).is_ok(), "what is there can be read"); let mut i = 0; while i < b.len() { check(b[i] == 0x5a, "a block read fills the buffer with the next bytes"); i += 1 } } }
    match r.read_be_u16() { Ok(x) => check(x == (tail[0] as u16) << 8 | tail[1] as u16, "reading goes on behind the skipped bytes"), _ => check(false, "reading goes on behind the skipped bytes") }
    check(r.skip(2).is_err(), "no skipping past the end"); reach("far");
}

// ---------------------------------------------------------------- C05
/// Many frames in a row: each has its own number and place in time.
pub fn c05_many() {
    let var = choose(2) == 1; let from = pick(&[0u64, 1, 120, 2040, 65530, 0x1ffff8]); let bs = pick(&[1u32, 3]); let k = if from == 1 { if thorough() || (!var && bs == 1) { 66000 } else { 300 } } else { 16 }; let mut v = Vec::new();
    for i in 0..k { let num = if var { from + i * bs as u64 } else { from + i }; let mut w = frame_header(var, bs, 0, 8, &coded(num)); put_const(&mut w, if i + 1 == k { sbits(8) } else { i as i64 % 100 }, 8); v.extend_from_slice(&frame_end(w)) }
    let mut r = FrameReader::new(Cursor::new(v)); let mut buf = Vec::new();
    for i in 0..k { match r.read_next_or_eof(buf) { Ok(Some(b)) => { check(b.time() == if var { from + i * bs as u64 } else { (from + i) * bs as u64 }, "every block starts where the one before it ended"); if i + 1 < k { check(b.sample(0, 0) as u64 == i % 100, "the frames come in order") } buf = b.into_buffer() } _ => { check(false, "a complete frame is decoded"); return } } }
    match r.read_next_or_eof(buf) { Ok(None) => reach("many"), _ => check(false, "the end comes behind the last frame") }
}

// ---------------------------------------------------------------- C13, C14, C21: announced sizes
fn hint_ok(h: (usize, Option<usize>), left: usize) -> bool { h.0 <= left && h.1.map_or(true, |m| m >= left) }
pub fn c13_hint() {
    let n = pick(&[1u32, 2, 6]); let (w, _) = crate::frames::verb_frame(pick(&[1u64, 10]), n, 8, 0);
    let b = match FrameReader::new(Cursor::new(frame_end(w))).read_next_or_eof(Vec::new()) { Ok(Some(b)) => b, _ => { check(false, "a complete frame is decoded"); return } };
    let mut it = b.stereo_samples(); for i in 0..n + 2 { check(hint_ok(it.size_hint(), n.saturating_sub(i) as usize), "the announced number of pairs is right"); let x = it.next(); check(x.is_some() == (i < n), "one pair for every sample") } reach("hint");
}
pub fn c14_hint() {
    let mut v = stream_start(16, 4096, 2, 8); v.truncate(8); let si = streaminfo(16, 4096, 2, 8, bits(36)); v.extend_from_slice(&si);
    let k = choose(3); let mut n = 0; for i in 0..k { let s = pick(&[(0u64, 2u32), (1, 1), (1, 3)]); let (w, _) = crate::frames::verb_frame(s.0, s.1, 8, i as u64); v.extend_from_slice(&frame_end(w)); n += (s.0 as usize + 1) * s.1 as usize }
    let cut = choose(2) == 1; if cut { v.push(0xff); n += 1 }
    let r = match FlacReader::new(Cursor::new(v)) { Ok(r) => r, _ => { check(false, "a complete stream is opened"); return } };
    match choose(2) { 0 => { let mut r = r; let mut it = r.samples(); for i in 0..n + 2 { check(hint_ok(it.size_hint(), n.saturating_sub(i)), "no more is announced than comes, and no less than may come"); let x = it.next(); check(x.is_some() == (i < n), "every sample, then the error or the end") } }
        _ => { let mut it = r.into_samples(); for i in 0..n + 2 { check(hint_ok(it.size_hint(), n.saturating_sub(i)), "no more is announced than comes, and no less than may come"); let x = it.next(); check(x.is_some() == (i < n), "every sample, then the error or the end") } } }
    reach("hint");
}
pub fn c21_hint() {
    let k = choose(4) as usize; let mut cs = Vec::new(); let mut n = 0;
    for _ in 0..k { let m = choose(2) == 1; n += m as usize; cs.push((String::from(if m { "aB=1" } else { "ab2=" }), if m { 2 } else { 3 })) }
    let mut g = GetTag::new(&cs, "Ab"); for i in 0..n + 2 { check(hint_ok(g.size_hint(), n.saturating_sub(i)), "the announced number of values is right"); let x = g.next(); check(x.is_some() == (i < n), "every matching value") }
    check(Tags::new(&cs).count() == k && Tags::new(&cs).last().is_some() == (k > 0) && GetTag::new(&cs, "AB").count() == n, "adaptors agree"); if k > 1 { check(Tags::new(&cs).nth(1).map(|x| x.0.len()) == Some(cs[1].1), "adaptors agree") } reach("hint");
}

// ---------------------------------------------------------------- C16, C17, C21: large blocks
fn comments(vendor: &[u8], cs: &[Vec<u8>]) -> Vec<u8> { let mut v = Vec::new(); le32(&mut v, vendor.len() as u32); v.extend_from_slice(vendor); le32(&mut v, cs.len() as u32); for c in cs { le32(&mut v, c.len() as u32); v.extend_from_slice(c) } v }
fn parse(b: &[u8]) -> Option<claxon::metadata::VorbisComment> { match read_metadata_block(&mut Cursor::new(b), 4, b.len() as u32) { Ok(MetadataBlock::VorbisComment(v)) => Some(v), _ => { check(false, "a well-formed comment block is accepted"); None } } }
fn same_text(a: &[u8], b: &[u8], msg: &'static str) { check(a.len() == b.len(), msg); let mut i = 0; while i < a.len() { check(a[i] == b[i], msg); i += 1 } }
fn filler(n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); let mut i = 0; while i < n { v.push(b'a' + (i % 26) as u8); i += 1 } v }
fn low() -> u8 { bits(7) as u8 }
/// Long vendor strings, values and names.
pub fn c16_long() {
    let l = pick(&[254usize, 255, 256, 257, 1000, 4096, 65535, 65536, 70001]); let which = choose(3); let mut t = filler(l); if l > 5000 && which == 2 && !thorough() { return }
    let at = pick(&[0usize, 1, 2]); let p = match at { 0 => 0, 1 => l / 2, _ => l - 1 }; t[p] = low(); if which == 2 { assume(t[p] >= 0x20 && t[p] <= 0x7d && t[p] != b'=') }
    let (mut vendor, mut cs) = (b"v".to_vec(), vec![b"k=w".to_vec(), b"second=2".to_vec()]); let sep = match which { 0 => { vendor = t; 1 } 1 => { let mut c = b"name=".to_vec(); c.extend_from_slice(&t); cs[0] = c; 4 } _ => { let mut c = t.clone(); c.extend_from_slice(b"=val"); cs[0] = c; l } };
    let b = comments(&vendor, &cs); let v = match parse(&b) { Some(v) => v, None => return };
    same_text(v.vendor.as_bytes(), &vendor, "the vendor string as stored"); check(v.comments.len() == 2 && v.comments[0].1 == sep && v.comments[1].1 == 6, "the separators"); same_text(v.comments[0].0.as_bytes(), &cs[0], "the comment as stored"); same_text(v.comments[1].0.as_bytes(), &cs[1], "the comment as stored");
    let n: Vec<(&str, &str)> = Tags::new(&v.comments).collect(); check(n.len() == 2, "all tags"); same_text(n[0].0.as_bytes(), &cs[0][..sep], "the name"); same_text(n[0].1.as_bytes(), &cs[0][sep + 1..], "the value"); reach("long");
}
/// Many comments, empty ones among them.
pub fn c16_many() {
    let k = pick(&[255usize, 256, 257, 1000, 4097, 65535, 65537, 70000]); if k > 1000 && !thorough() && choose(2) == 1 { return } let empty = pick(&[0usize, 3, k]); let mut cs = Vec::with_capacity(k); let mut want = Vec::new();
    for i in 0..k { let c: Vec<u8> = if empty > 0 && i % empty == empty - 1 { Vec::new() } else { let x = if i + 2 >= k { low() } else { b'a' + (i % 26) as u8 }; vec![b'A' + (i % 23) as u8, b'=', x, b'0' + (i / 256 % 10) as u8] }; if !c.is_empty() { want.push(c.clone()) } cs.push(c) }
    let b = comments(b"", &cs); let v = match parse(&b) { Some(v) => v, None => return };
    check(v.comments.len() == want.len(), "all non-empty comments, no others"); for (i, w) in want.iter().enumerate() { check(v.comments[i].1 == 1, "the separator"); same_text(v.comments[i].0.as_bytes(), w, "the comment as stored") }
    let mut t = Tags::new(&v.comments); check(t.len() == want.len(), "the number of tags"); for w in &want { match t.next() { Some((n, x)) => { same_text(n.as_bytes(), &w[..1], "the name"); same_text(x.as_bytes(), &w[2..], "the value") } None => check(false, "every tag is listed") } } check(t.next().is_none(), "no other tags");
    let mut g = GetTag::new(&v.comments, "b"); for w in &want { if w[0] == b'B' { match g.next() { Some(x) => same_text(x.as_bytes(), &w[2..], "the value of every matching comment, in order"), None => check(false, "no matching comment is left out") } } } check(g.next().is_none(), "no other comment matches"); reach("many");
}
/// Long names and needles: compared over their whole length, up to case.
pub fn c21_long() {
    let l = pick(&[0usize, 12, 33, 255, 256, 300, 65537]); let mut name = filler(l); let mut needle = name.clone(); if l > 0 { let p = match choose(3) { 0 => 0, 1 => l / 2, _ => l - 1 }; name[p] = low(); assume(name[p] >= 0x20 && name[p] <= 0x7d && name[p] != b'='); needle[p] = low() }
    match choose(4) { 1 => needle.push(b'x'), 2 => { if l == 0 { return } needle.pop(); } 3 => for b in needle.iter_mut() { if *b >= b'a' && *b <= b'z' { *b -= 32 } } , _ => {} }
    let want = crate::meta::nocase(&name, &needle); let mut c = name.clone(); c.push(b'='); c.extend_from_slice(b"\xc3\xa9="); let (s, n) = match (String::from_utf8(c), String::from_utf8(needle)) { (Ok(s), Ok(n)) => (s, n), _ => { check(false, "utf-8"); return } };
    let cs = vec![(String::from("zz=zz"), 2), (s, l)]; let mut g = GetTag::new(&cs, &n); let x = g.next(); if want { reach("match"); check(x == Some("\u{e9}="), "the value behind the first separator") } else { reach("other"); check(x.is_none() || n == "zz", "other names do not match") }
}
/// Large application blocks up to the limit, and blocks passed over of any size, with more blocks behind them.
pub fn c17_large() {
    let ty = pick(&[2u8, 1, 3, 6, 50]); let l = pick(&[255usize, 256, 257, 65535, 65536, 65540, 1 << 20, 10 << 20, (10 << 20) + 1, (1 << 24) - 1]); if l > 2 << 20 && ty != 2 && ty != 6 { return } let over = ty == 2 && l > 10 << 20; if !thorough() && l > 100000 && ty == 50 { return }
    let mut v = Vec::with_capacity(l + 64); v.extend_from_slice(&[ty, (l >> 16) as u8, (l >> 8) as u8, l as u8]); let at = v.len(); v.resize(at + l, 0x5a); for i in 0..6 { v[at + i] = byte() } let n = v.len(); v[n - 1] = byte(); v[at + l / 2] = byte();
    let probe = [v[at + 4], v[at + l / 2], v[n - 1]]; let id = be(&v, at, 4); let t = [byte(), byte()]; meta_block(&mut v, true, 2, &[0, 0, 0, 9, t[0], t[1]]);
    let mut it = MetadataBlockReader::new(BufferedReader::new(Cursor::new(v)));
    match it.next() {
        Some(Ok(MetadataBlock::Application { id: i, data })) => { check(ty == 2 && !over && i as u64 == id, "the application id"); check(data.len() == l - 4 && data[0] == probe[0] && data[l / 2 - 4] == probe[1] && data[l - 5] == probe[2], "the application data"); check(data.capacity() <= 4 * l + 4096, "memory in proportion to the block"); reach("application") }
        Some(Ok(MetadataBlock::Padding { length })) => { check(ty != 2 && ty != 50 && (ty != 1 || length as usize == l), "the length of the padding"); reach("skipped") }
        Some(Ok(_)) => { check(ty == 50 || ty == 3 || ty == 6, "kind"); reach("skipped") }
        Some(Err(e)) => { check(over && err_class(&e) == UNS, "only too large a block is refused"); check(it.next().is_none(), "nothing behind a failure"); reach("refused"); return }
        None => { check(false, "every block is delivered"); return }
    }
    match it.next() { Some(Ok(MetadataBlock::Application { id, data })) => { check(id == 9, "the next block"); bytes_eq(&data, &t, "the next block") } _ => check(false, "the next block follows") } check(it.next().is_none(), "nothing behind the last block");
}
/// Many blocks.
pub fn c17_many() {
    let k = pick(&[127usize, 128, 255, 256, 300, 65538]); let mut v = Vec::new(); let x = bits(3) as u8; for i in 0..k { match i % 3 { 0 => meta_block(&mut v, i + 1 == k, 1, &[0; 2]), 1 => meta_block(&mut v, i + 1 == k, 2, &[0, (i >> 16) as u8, (i >> 8) as u8, i as u8, x]), _ => meta_block(&mut v, i + 1 == k, 77, &[]) } }
    let end = v.len(); v.extend_from_slice(&[1, 0, 0, 0]); let mut s = Src::new(v); { let mut it = MetadataBlockReader::new(&mut s);
        for i in 0..k { match it.next() { Some(Ok(b)) => check(match b { MetadataBlock::Padding { length } => i % 3 == 0 && length == 2, MetadataBlock::Application { id, ref data } => i % 3 == 1 && id == i as u32 && data.len() == 1 && data[0] == x, MetadataBlock::Reserved => i % 3 == 2, _ => false }, "blocks come in order"), _ => { check(false, "every block is delivered"); return } } }
        check(it.next().is_none() && it.size_hint() == (0, Some(0)), "nothing behind the last block"); } check(s.pos == end, "exactly the blocks are consumed");
    // the same blocks in a stream, with the comments as the last one
    let mut w = b"fLaC".to_vec(); let si = streaminfo(16, 16, 1, 8, 5); meta_block(&mut w, false, 0, &si); for _ in 0..k { meta_block(&mut w, false, 1, &[]) } let b = comments(b"v", &[vec![b'a', b'=', b'0' + x]]); meta_block(&mut w, true, 4, &b);
    match FlacReader::new(Cursor::new(w)) { Ok(r) => { match r.get_tag("A").next() { Some(t) => check(t.as_bytes()[0] == b'0' + x, "the comments behind many blocks"), None => check(false, "the comments behind many blocks") } } _ => check(false, "a well-formed stream is opened") } reach("many");
}

// ---------------------------------------------------------------- C19: files
fn outcome(r: claxon::Result<FlacReader<impl io::Read>>, meta_only: bool) -> Vec<i64> {
    let mut o = Vec::new();
    match r { Err(e) => { o.push(-1); o.push(err_class(&e) as i64) }
        Ok(r) => { let s = r.streaminfo(); o.push(s.sample_rate as i64); o.push(s.samples.map_or(-5, |x| x as i64)); o.push(s.channels as i64); o.push(s.bits_per_sample as i64); for b in s.md5sum.iter() { o.push(*b as i64) }
            match r.vendor() { Some(v) => for b in v.bytes() { o.push(b as i64) }, None => o.push(-6) } o.push(r.tags().len() as i64); for (_, v) in r.tags() { for b in v.bytes() { o.push(b as i64) } }
            if !meta_only { let mut r = r; for x in r.samples() { match x { Ok(x) => o.push(x as i64), Err(e) => { o.push(-2000000); o.push(err_class(&e) as i64) } } } } } }
    o
}
/// Opening a file by name is the same as reading its bytes.
pub fn c19_open() {
    let mut v = if choose(3) == 0 { sym_vec(4) } else { b"fLaC".to_vec() }; let mut si = streaminfo(16, 16, 2, 8, bits(36)); si[18] = byte(); si[33] = byte(); meta_block(&mut v, false, 0, &si);
    let b = comments(b"v", &[vec![b'a', b'=', low()]]); meta_block(&mut v, true, 4, &b); let (w, _) = crate::frames::verb_frame(1, 2, 8, 0); let mut f = frame_end(w); match choose(3) { 1 => { let n = f.len(); f.truncate(n - 1) } 2 => { let n = f.len(); f[n - 1] ^= 0x40 } _ => {} } v.extend_from_slice(&f); if choose(2) == 1 { let n = pick(&[3usize, 20, 45, 61]); v.truncate(n) }
    let path = crate::file::put(&v, pick(&[0usize, 5])); let how = choose(5);
    let o = FlacReaderOptions { metadata_only: how & 1 == 1, read_vorbis_comment: how & 2 == 2 };
    let (a, b) = if how == 4 { (outcome(FlacReader::open(&path), false), outcome(FlacReader::new(Cursor::new(v)), false)) } else { (outcome(FlacReader::open_ext(&path, o), o.metadata_only), outcome(FlacReader::new_ext(Cursor::new(v), o), o.metadata_only)) };
    check(a.len() == b.len(), "a file gives the same as its bytes"); let mut i = 0; while i < a.len() { check(a[i] == b[i], "a file gives the same as its bytes"); i += 1 }
    check(crate::file::open_files() == 0, "the file is closed again"); reach(if a[0] == -1 { "refused" } else { "opened" });
}
/// What cannot be opened or read is an error of the file system, with its kind.
pub fn c19_missing() {
    let dir = choose(2) == 1; let o = FlacReaderOptions { metadata_only: choose(2) == 1, read_vorbis_comment: choose(2) == 1 }; let p = if dir { "/" } else { "/no/such/file.flac" };
    let r = match choose(2) { 0 => FlacReader::open(p), _ => FlacReader::open_ext(p, o) };
    match r { Err(Error::IoError(e)) => { check(e.raw_os_error() == Some(if dir { 21 } else { 2 }), "the failure of the file system comes out"); reach(if dir { "directory" } else { "missing" }) } _ => check(false, "the failure of the file system comes out") }
    check(crate::file::open_files() == 0, "no file is left open");
}
/// The source is read in order and handed back where reading stopped.
pub fn c19_inner() {
    let mo = choose(2) == 1; let mut v = b"fLaC".to_vec(); let si = streaminfo(16, 16, 1, 8, 0); meta_block(&mut v, false, 0, &si); let pad = pick(&[0usize, 4000]); meta_block(&mut v, false, 1, &vec![0; pad]); let b = comments(b"", &[]); meta_block(&mut v, true, 4, &b); let meta = v.len();
    for i in 0..2 { let (w, _) = crate::frames::verb_frame(0, 3, 8, i); v.extend_from_slice(&frame_end(w)) } let end = v.len(); let tail = [byte(), byte()]; v.extend_from_slice(&tail); v.resize(v.len() + 3000, 7); let n = v.len();
    let mut r = match FlacReader::new_ext(Cursor::new(v), FlacReaderOptions { metadata_only: mo, read_vorbis_comment: true }) { Ok(r) => r, _ => { check(false, "a well-formed stream is opened"); return } };
    let mut need = meta; if !mo { let k = choose(3); let mut b = r.blocks(); for _ in 0..k { check(class(&b.read_next_or_eof(Vec::new())) == OK, "a complete frame is decoded") } if k == 2 { need = end } }
    let c = r.into_inner(); let p = c.position() as usize; check(p >= need && p <= n, "the source comes back behind what was used"); let d = c.into_inner(); check(d.len() == n && d[end] == tail[0] && d[end + 1] == tail[1], "the source comes back unchanged"); reach("inner");
}

// ---------------------------------------------------------------- C24: errors
fn leak(v: Vec<u8>) -> &'static str { match std::str::from_utf8(Box::leak(v.into_boxed_slice())) { Ok(s) => s, _ => "" } }
fn ascii(n: usize) -> Vec<u8> { let mut v = sym_vec(n); for b in v.iter_mut() { *b &= 0x7f } v }
fn text_eq(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false } let mut r = true; for i in 0..a.len() { r &= a[i] == b[i] } r }
fn make(kind: u32, s: &'static str) -> Error { match kind { 0 => Error::FormatError(s), 1 => Error::Unsupported(s), 2 => Error::IoError(io::Error::from(ErrorKind::UnexpectedEof)), 4 => Error::IoError(io::Error::from_raw_os_error(5)), _ => Error::IoError(io::Error::new(ErrorKind::Other, s)) } }
/// Equality: same class and same reason; failures of the source are never equal.
pub fn c24_equal() {
    let (a, b) = (ascii(choose(3) as usize), ascii(choose(3) as usize)); let (k, l) = (choose(5), choose(5)); let same = text_eq(&a, &b);
    let (x, y) = (make(k, leak(a)), make(l, leak(b))); let want = k == l && k < 2 && same;
    check((x == y) == want && (y == x) == want && (x != y) == !want, "errors are equal exactly if class and reason are"); check((x == x) == (k < 2), "errors of the source equal nothing"); reach(if want { "equal" } else { "different" });
}
struct Sink { v: Vec<u8> }
impl std::fmt::Write for Sink { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.v.extend_from_slice(s.as_bytes()); Ok(()) } }
fn ends(a: &[u8], b: &[u8], msg: &'static str) { check(a.len() >= b.len(), msg); let k = a.len() - b.len(); for i in 0..b.len() { check(a[k + i] == b[i], msg) } }
/// What is shown contains the reason; the cause is the failure of the source, if there is one.
pub fn c24_shown() {
    use std::fmt::Write; let k = choose(4); let t = ascii(1 + choose(3) as usize); let e = make(k, leak(t.clone())); let mut s = Sink { v: Vec::new() };
    check(write!(s, "{}", e).is_ok(), "an error can be shown");
    #[allow(deprecated)] { let d: &dyn std::error::Error = &e; check(d.cause().is_some() == (k >= 2), "the cause is there exactly for failures of the source");
        match k { 0 => { ends(&s.v, &t, "the reason is shown"); check(s.v.len() > t.len(), "the class is shown"); bytes_eq(d.description().as_bytes(), &t, "the reason is the description"); reach("format") }
            1 => { ends(&s.v, &t, "the reason is shown"); check(s.v.len() > t.len(), "the class is shown"); reach("unsupported") }
            2 => { check(!s.v.is_empty(), "the failure of the source is shown"); reach("kind") } _ => { ends(&s.v, &t, "the failure of the source is shown"); check(s.v.len() == t.len(), "the failure of the source is shown as it is"); reach("source") } } }
}
/// A source that fails once with a given error.
struct Once { data: Vec<u8>, pos: usize, at: usize, err: Option<io::Error> }
impl io::Read for Once { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { if self.pos >= self.at { if let Some(e) = self.err.take() { return Err(e) } } let n = b.len().min(self.data.len() - self.pos).min(if self.pos < self.at { self.at - self.pos } else { usize::MAX }); b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]); self.pos += n; Ok(n) } }
/// The error of the source comes out as it went in: its code, its kind, its payload.
pub fn c24_source() {
    let mut v = b"fLaC".to_vec(); let si = streaminfo(16, 16, 1, 8, 0); meta_block(&mut v, false, 0, &si); let b = comments(b"vendor", &[b"a=b".to_vec()]); meta_block(&mut v, false, 4, &b); meta_block(&mut v, false, 1, &[0; 9]); meta_block(&mut v, true, 2, &[1, 2, 3, 4, 5, 6]); let meta = v.len();
    let (w, _) = crate::frames::verb_frame(1, 2, 8, 0); v.extend_from_slice(&frame_end(w)); let n = v.len(); let at = choose(n as u32 + 1) as usize;
    let code = bits(31) as i32; assume(code > 0); let t = ascii(2); let how = choose(3); let kinds = [ErrorKind::NotFound, ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::Interrupted, ErrorKind::InvalidInput, ErrorKind::WriteZero, ErrorKind::AddrInUse, ErrorKind::UnexpectedEof]; let kind = if how == 0 { ErrorKind::Other } else { pick(&kinds) };
    let err = match how { 0 => io::Error::from_raw_os_error(code), 1 => io::Error::from(kind), _ => io::Error::new(kind, leak(t.clone())) };
    let got = match FlacReader::new(Once { data: v, pos: 0, at, err: Some(err) }) { Err(e) => { check(at < meta, "metadata that is there is read"); reach("metadata"); Some(e) }
        Ok(mut r) => { check(at >= meta, "incomplete metadata is not accepted"); let mut got = None; if choose(2) == 0 { let mut b = r.blocks(); loop { match b.read_next_or_eof(Vec::new()) { Ok(Some(_)) => {} Ok(None) => break, Err(e) => { got = Some(e); break } } } } else { for x in r.samples() { if let Err(e) = x { got = Some(e) } } } reach("audio"); got } };
    match got { Some(Error::IoError(e)) => { match how { 0 => check(e.raw_os_error() == Some(code), "the code of the failure"), 1 => check(e.kind() == kind && e.get_ref().is_none(), "the kind of the failure"), _ => { check(e.kind() == kind, "the kind of the failure"); match e.get_ref() { Some(p) => { use std::fmt::Write; let mut s = Sink { v: Vec::new() }; let _ = write!(s, "{}", p); bytes_eq(&s.v, &t, "the payload of the failure") } None => check(false, "the payload of the failure") } } } }
        _ => check(false, "a failure of the source comes out as such") }
}
/// Text that is not UTF-8 is a format error.
pub fn c24_text() {
    let v = sym_vec(2); let ok = std::str::from_utf8(&v).is_ok(); match String::from_utf8(v) { Ok(_) => { check(ok, "utf-8"); reach("text") } Err(e) => { let e: Error = e.into(); check(err_class(&e) == FMT, "text that is not UTF-8 is a format error"); reach("other") } }
    let k = pick(&[ErrorKind::Other, ErrorKind::TimedOut, ErrorKind::UnexpectedEof]); let e: Error = io::Error::from(k).into(); match e { Error::IoError(e) => check(e.kind() == k, "a failure of the source is kept"), _ => check(false, "a failure of the source is kept") }
}
