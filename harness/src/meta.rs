//! C15 streaminfo, C16 Vorbis comments, C17 metadata blocks, C18 memory, C19 opening, C21 tags.
use crate::sym::*;
use crate::util::*;
use claxon::input::ReadBytes;
use claxon::metadata::{read_metadata_block, read_metadata_block_with_header, GetTag, MetadataBlock, MetadataBlockReader, StreamInfo, Tags};
use claxon::{FlacReader, FlacReaderOptions};
use std::io::{self, Cursor};

// ---------------------------------------------------------------- C15
pub fn be(d: &[u8], at: usize, n: usize) -> u64 { let mut r = 0; for i in 0..n { r = r << 8 | d[at + i] as u64 } r }
fn opt32(x: u64) -> Option<u32> { if x == 0 { None } else { Some(x as u32) } }
fn si_ok(d: &[u8]) -> bool {
    let (a, b, f, g) = (be(d, 0, 2), be(d, 2, 2), be(d, 4, 3), be(d, 7, 3)); let rate = be(d, 10, 3) >> 4;
    (a <= b) & (a >= 16) & ((g == 0) | (f <= g)) & (rate != 0) & (rate <= 655350)
}
fn si_same(s: &StreamInfo, d: &[u8]) {
    check(s.min_block_size as u64 == be(d, 0, 2), "minimum block size"); check(s.max_block_size as u64 == be(d, 2, 2), "maximum block size");
    let (f, g) = (be(d, 4, 3), be(d, 7, 3));
    match s.min_frame_size { None => check(f == 0, "minimum frame size is unknown only if zero"), Some(x) => check(f != 0 && x as u64 == f, "minimum frame size") }
    match s.max_frame_size { None => check(g == 0, "maximum frame size is unknown only if zero"), Some(x) => check(g != 0 && x as u64 == g, "maximum frame size") }
    check(s.sample_rate as u64 == be(d, 10, 3) >> 4, "sample rate"); check(s.channels as u64 == ((be(d, 12, 1) >> 1) & 7) + 1, "channels"); check(s.bits_per_sample as u64 == ((be(d, 12, 2) >> 4) & 31) + 1, "bits per sample");
    let n = be(d, 13, 5) & 0xf_ffff_ffff; match s.samples { None => check(n == 0, "number of samples is unknown only if zero"), Some(x) => check(n != 0 && x == n, "number of samples") }
    for i in 0..16 { check(s.md5sum[i] == d[18 + i], "signature") }
}
/// All 34 bytes free: accepted exactly when consistent, every field as stored.
pub fn c15_fields() {
    let d = sym_vec(34); let ok = si_ok(&d); let mut e = d.clone(); e.push(0x77);
    match choose(3) {
        0 => { let mut s = Src::new(e); match read_metadata_block(&mut s, 0, 34) { Ok(MetadataBlock::StreamInfo(s)) => { reach("accepted"); check(ok, "an inconsistent block is refused"); si_same(&s, &d) } Ok(_) => check(false, "the kind of the block"), Err(x) => { reach("refused"); check(!ok && err_class(&x) == FMT, "a consistent block is accepted"); return } } check(s.pos == 34, "exactly the block is consumed") }
        1 => { let mut v = vec![(bits(1) << 7) as u8, 0, 0, 34]; v.extend_from_slice(&e); match read_metadata_block_with_header(&mut Cursor::new(v)) { Ok(MetadataBlock::StreamInfo(s)) => { check(ok, "an inconsistent block is refused"); si_same(&s, &d) } Ok(_) => check(false, "the kind of the block"), Err(x) => check(!ok && err_class(&x) == FMT, "a consistent block is accepted") } }
        _ => { let mut v = b"fLaC".to_vec(); meta_block(&mut v, true, 0, &d); match FlacReader::new(Cursor::new(v)) { Ok(r) => { reach("opened"); check(ok, "an inconsistent block is refused"); si_same(&r.streaminfo(), &d) } Err(x) => check(!ok && err_class(&x) == FMT, "a consistent block is accepted") } }
    }
}
/// Any other length is refused.
pub fn c15_length() {
    let l = bits(if choose(2) == 0 { 24 } else { 32 }) as u32; assume(l != 34); let mut v = streaminfo(16, 16, 2, 16, 7); v.extend_from_slice(&[0; 16]);
    check(class(&read_metadata_block(&mut Cursor::new(v), 0, l)) == FMT, "a block of another length is refused"); reach("length");
}
/// The same equality as the crate derives it, on values of the public type.
pub fn c15_truncated() {
    let d = sym_vec(choose(34) as usize); check(class(&read_metadata_block(&mut Cursor::new(d), 0, 34)) == EOF, "an incomplete block is an unexpected end"); reach("truncated");
}

// ---------------------------------------------------------------- C16
/// Well-formed UTF-8, by the table of the standard.
fn utf8_ok(d: &[u8]) -> bool {
    let mut i = 0;
    while i < d.len() {
        let b = d[i]; if b < 0x80 { i += 1; continue }
        let (n, lo, hi) = if b < 0xc2 { return false } else if b < 0xe0 { (1, 0x80, 0xbf) } else if b == 0xe0 { (2, 0xa0, 0xbf) } else if b == 0xed { (2, 0x80, 0x9f) } else if b < 0xf0 { (2, 0x80, 0xbf) } else if b == 0xf0 { (3, 0x90, 0xbf) } else if b < 0xf4 { (3, 0x80, 0xbf) } else if b == 0xf4 { (3, 0x80, 0x8f) } else { return false };
        if i + n >= d.len() { return false }
        if d[i + 1] < lo || d[i + 1] > hi { return false }
        for j in 2..n + 1 { if d[i + j] & 0xc0 != 0x80 { return false } }
        i += n + 1;
    }
    true
}
fn rle32(d: &[u8], at: usize) -> u64 { d[at] as u64 | (d[at + 1] as u64) << 8 | (d[at + 2] as u64) << 16 | (d[at + 3] as u64) << 24 }
/// Vendor range and comment ranges with the place of the separator; None if the block is malformed.
fn vorbis_ref(d: &[u8]) -> Option<((usize, usize), Vec<(usize, usize, usize)>)> {
    let n = d.len(); if n < 8 { return None }
    let vl = rle32(d, 0); if vl > n as u64 - 8 { return None } let vl = conc(vl) as usize; if !utf8_ok(&d[4..4 + vl]) { return None }
    let cnt = rle32(d, 4 + vl); let mut p = 8 + vl; let mut out = Vec::new(); let mut k = 0u64;
    if cnt > (n as u64 - p as u64) / 4 { return None } let cnt = conc(cnt);
    while k < cnt {
        if p + 4 > n { return None } let l = rle32(d, p); p += 4; if l > (n - p) as u64 { return None } let l = conc(l) as usize; k += 1;
        if l == 0 { continue }
        let mut s = 0; while s < l && d[p + s] != b'=' { s += 1 } if s == l { return None }
        for j in 0..s { if d[p + j] < 0x20 || d[p + j] > 0x7d { return None } }
        if !utf8_ok(&d[p..p + l]) { return None }
        out.push((p, l, s)); p += l;
    }
    if p != n { return None }
    Some(((4, vl), out))
}
pub fn bytes_eq(a: &[u8], b: &[u8], msg: &'static str) { check(a.len() == b.len(), msg); let mut i = 0; while i < a.len() { check(a[i] == b[i], msg); i += 1 } }
fn vorbis_compare(d: &[u8]) {
    let r = read_metadata_block(&mut Cursor::new(d.to_vec()), 4, d.len() as u32);
    match (r, vorbis_ref(d)) {
        (Ok(MetadataBlock::VorbisComment(vc)), Some((v, cs))) => {
            reach("accepted"); bytes_eq(vc.vendor.as_bytes(), &d[v.0..v.0 + v.1], "the vendor string as stored"); check(vc.comments.len() == cs.len(), "all non-empty comments, no others");
            for (i, &(p, l, s)) in cs.iter().enumerate() { bytes_eq(vc.comments[i].0.as_bytes(), &d[p..p + l], "the comment as stored"); check(vc.comments[i].1 == s, "the separator is the first one") }
            observe(cs.len() as u64);
        }
        (Ok(MetadataBlock::VorbisComment(_)), None) => check(false, "a malformed comment block is refused"), (Ok(_), _) => check(false, "the kind of the block"),
        (Err(e), None) => { reach("refused"); check(err_class(&e) == FMT, "a malformed comment block is a format error") } (Err(_), Some(_)) => check(false, "a well-formed comment block is accepted"),
    }
}
/// Arbitrary block contents against an independent parser.
pub fn c16_arbitrary() { let n = choose(if thorough() { 17 } else { 15 }) as usize; vorbis_compare(&sym_vec(n)) }
/// Several comments with free bytes; lengths and count right, or off by a little.
pub fn c16_structured() {
    let mut v = Vec::new(); let vl = pick(&[0u32, 2]); le32(&mut v, vl); for _ in 0..vl { v.push(byte()) }
    let k = choose(4); let claim = pick(&[0i32, 0, 1, -1]); if k as i32 + claim < 0 { return } le32(&mut v, (k as i32 + claim) as u32);
    for i in 0..k { let l = pick(&[0u32, 1, 2 + (i & 1)]); let lie = if i + 1 == k { pick(&[0u32, 0, 1]) } else { 0 }; le32(&mut v, l + lie); for j in 0..l { let b = byte(); assume(b < 0x80); if l == 3 && j == 2 { assume(b & 0x60 == 0x60) } v.push(b) } }
    if choose(2) == 1 { for _ in 0..1 + choose(4) { v.push(byte()) } }
    vorbis_compare(&v)
}
/// Text in values and vendor string: well-formed UTF-8 only, kept as it is.
pub fn c16_utf8() {
    let n = pick(&[1usize, 2, 3, 4]) ; let t = sym_vec(n); let mut v = Vec::new();
    match choose(3) { 0 => { le32(&mut v, n as u32); v.extend_from_slice(&t); le32(&mut v, 0) }
        1 => { le32(&mut v, 0); le32(&mut v, 1); le32(&mut v, n as u32 + 2); v.extend_from_slice(b"a="); v.extend_from_slice(&t) }
        _ => { le32(&mut v, 0); le32(&mut v, 1); le32(&mut v, n as u32 + 4); v.extend_from_slice(b"b=x"); v.extend_from_slice(&t); v.push(b'y') } }
    vorbis_compare(&v)
}
/// Field names: every byte in and out of the permitted range, separators within values.
pub fn c16_names() {
    let n = if thorough() { 6 } else { 5 }; let t = sym_vec(n); let mut v = Vec::new(); le32(&mut v, 1); v.push(b'v'); le32(&mut v, 1); le32(&mut v, n as u32 + 1); for &b in &t { assume(b < 0x80); v.push(b) } v.push(pick(&[b'=', b'z']));
    vorbis_compare(&v)
}
/// Lengths and counts of 32 bits that do not fit.
pub fn c16_lengths() {
    let n = pick(&[8u32, 12, 21]); let mut v = Vec::new();
    match choose(3) {
        0 => { let vl = bits(32) as u32; assume(vl > n - 8); le32(&mut v, vl); reach("vendor") }
        1 => { let c = bits(32) as u32; assume(c > (n - 8) / 4); le32(&mut v, 0); le32(&mut v, c); reach("count") }
        _ => { if n < 12 { return } let c = bits(32) as u32; assume(c > n - 12); le32(&mut v, 0); le32(&mut v, 1); le32(&mut v, c); reach("comment") }
    }
    while v.len() < n as usize { v.push(0) } for _ in 0..40 { v.push(0) }
    check(class(&read_metadata_block(&mut Cursor::new(v), 4, n)) == FMT, "a length beyond the block is refused");
}

// ---------------------------------------------------------------- C17
pub fn valid_body(ty: u8, l: usize) -> Vec<u8> {
    match ty { 0 => streaminfo(16, 4096, 2, 16, 99), 4 => { let mut v = Vec::new(); le32(&mut v, 1); v.push(b'v'); le32(&mut v, 1); le32(&mut v, 3); v.extend_from_slice(b"a=b"); v } 2 => sym_vec(l + 4), _ => sym_vec(l) }
}
/// Every block type: its kind, its contents, exactly its bytes.
pub fn c17_types() {
    let ty = bits(7) as u8; let last = bits(1) as u8; let l = pick(&[0usize, 1, 5]); let known = pick(&[0u8, 2, 4, 9]); if known == 9 { assume(ty != 0 && ty != 2 && ty != 4) } else { assume(ty == known); if (known == 0 || known == 4) && l > 0 { return } }
    let body = valid_body(known, l); let mut v = vec![last << 7 | ty, 0, 0, body.len() as u8]; v.extend_from_slice(&body); let end = v.len(); v.push(byte()); v.push(byte());
    let direct = choose(2) == 0; let mut s = Src::new(v);
    let r = if direct { s.pos = 4; read_metadata_block(&mut s, ty, body.len() as u32) } else { read_metadata_block_with_header(&mut s) };
    match r {
        Ok(b) => { check(s.pos == end, "exactly the block is consumed"); check(ty != 127, "the invalid type is refused");
            match b { MetadataBlock::StreamInfo(i) => { reach("streaminfo"); check(ty == 0, "kind"); si_same(&i, &body) }
                MetadataBlock::Padding { length } => { reach("padding"); check(ty == 1 || ty == 3 || ty == 5 || ty == 6, "kind"); check(length as usize == body.len(), "the length of the padding") }
                MetadataBlock::Application { id, data } => { reach("application"); check(ty == 2, "kind"); check(id as u64 == be(&body, 0, 4), "the application id"); bytes_eq(&data, &body[4..], "the application data"); check_init(&data[..]) }
                MetadataBlock::SeekTable(_) => check(ty == 3, "kind"), MetadataBlock::VorbisComment(c) => { reach("comment"); check(ty == 4 && c.vendor == "v" && c.comments.len() == 1, "kind") }
                MetadataBlock::CueSheet => check(ty == 5, "kind"), MetadataBlock::Picture => check(ty == 6, "kind"),
                MetadataBlock::Reserved => { reach("reserved"); check(ty >= 7 && ty < 127, "kind") } } }
        Err(e) => { reach("invalid"); check(ty == 127 && err_class(&e) == FMT, "every type but the invalid one is accepted") }
    }
}
/// A source that only counts.
struct Count { skipped: u64 }
impl ReadBytes for Count {
    fn read_u8(&mut self) -> io::Result<u8> { Err(eof()) }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> { Ok(None) }
    fn read_into(&mut self, b: &mut [u8]) -> io::Result<()> { if b.is_empty() { Ok(()) } else { Err(eof()) } }
    fn skip(&mut self, n: u32) -> io::Result<()> { self.skipped += n as u64; Ok(()) }
}
/// Blocks that are passed over, of every length.
pub fn c17_skip() {
    let ty = bits(7) as u8; assume(ty != 0 && ty != 2 && ty != 4 && ty != 127); let l = bits(24) as u32; let mut s = Count { skipped: 0 };
    match read_metadata_block(&mut s, ty, l) { Ok(MetadataBlock::Padding { length }) => { reach("padding"); check(length == l, "the length of the padding") } Ok(_) => reach("other"), Err(_) => check(false, "a block of any length is passed over") }
    check(s.skipped == l as u64, "exactly the block is consumed");
}
/// Application blocks that are too short or too long.
pub fn c17_application() {
    let l = bits(32) as u32; assume(l < 4 || l > 10 << 20); let r = read_metadata_block(&mut Cursor::new(sym_vec(12)), 2, l);
    if l < 4 { reach("short"); check(class(&r) == FMT, "a block too short for its id is refused") } else { reach("long"); check(class(&r) == UNS, "a very large block is unsupported") }
}
/// Iteration over several blocks: up to the one marked last, not further; nothing behind a failure.
pub fn c17_iterate() {
    let k = 1 + choose(if thorough() { 4 } else { 3 }) as usize; let lastat = choose(k as u32 + 1) as usize; let mut v = Vec::new(); let mut bad = k; let mut ends = Vec::new(); let mut types = Vec::new();
    for i in 0..k {
        let kind = pick(&[0u8, 1, 2, 4, 7, 127]); let l = if kind == 7 || kind == 1 { 3 } else { 0 }; let b = valid_body(kind, l);
        if kind == 127 && bad == k { bad = i } let ty = if kind == 7 { let t = bits(7) as u8; assume(t >= 7 && t < 127); t } else { kind }; meta_block(&mut v, i == lastat, ty, &b); ends.push(v.len()); types.push(kind);
    }
    let stop = if lastat < bad { lastat + 1 } else { bad }; // number of good blocks the iterator must deliver
    let failing = bad < k && bad <= lastat; let trunc = lastat == k && bad == k; // no last flag: the input ends instead
    let mut s = Src::new(v); { let mut it = MetadataBlockReader::new(&mut s);
    for i in 0..stop { check(it.size_hint() == (1, None), "more blocks are announced"); match it.next() { Some(Ok(b)) => check(match b { MetadataBlock::StreamInfo(_) => types[i] == 0, MetadataBlock::Padding { .. } => types[i] == 1, MetadataBlock::Application { .. } => types[i] == 2, MetadataBlock::VorbisComment(_) => types[i] == 4, MetadataBlock::Reserved => types[i] == 7, _ => false }, "blocks come in order"), _ => { check(false, "every block is delivered"); return } } }
    if failing || trunc { check(it.size_hint() == (1, None), "more blocks are announced"); match it.next() { Some(Err(e)) => { reach("failure"); check(err_class(&e) == if failing { FMT } else { EOF }, "the class of the error") } _ => check(false, "a failure is reported") } } else { reach("last") }
    for _ in 0..3 { check(it.size_hint() == (0, Some(0)), "the end is announced"); check(it.next().is_none(), "nothing behind the last block or a failure") } }
    if !failing && !trunc { check(s.pos == ends[stop - 1], "exactly the blocks are consumed") }
}

/// Any failure ends the iteration, whatever its kind and wherever it happens.
pub fn c17_failures() {
    let k = choose(3) as usize; let mut v = Vec::new(); for _ in 0..k { let ty = pick(&[1u8, 2, 4]); let b = valid_body(ty, 2); meta_block(&mut v, false, ty, &b) }
    let last = (choose(2) as u8) << 7; let how = choose(11); let mut fault = None; let from = v.len();
    let want = match how {
        0 => { v.extend_from_slice(&[last | 2, 0xa1, 0, 0]); UNS } // application block beyond the limit
        1 => { v.extend_from_slice(&[last | 4, 0xa1, 0, 0]); UNS } // comments beyond the limit
        2 => { let l = bits(8) as u8; assume(l != 34); v.extend_from_slice(&[last, 0, 0, l]); v.extend_from_slice(&[0; 40]); FMT }
        3 => { v.extend_from_slice(&[last | 2, 0, 0, bits(2) as u8]); v.extend_from_slice(&[0; 9]); FMT }
        4 => { v.extend_from_slice(&[last | 4, 0, 0, bits(3) as u8]); v.extend_from_slice(&[0; 9]); FMT }
        5 => { meta_block(&mut v, last != 0, 4, &[0, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, b'a', b'b']); FMT } // no separator
        6 => { let b = byte(); assume(b & 0xc0 == 0x80 || b > 0xf4); meta_block(&mut v, last != 0, 4, &[1, 0, 0, 0, b, 0, 0, 0, 0]); FMT } // not UTF-8
        7 => { meta_block(&mut v, last != 0, 0, &streaminfo(pick(&[15u32, 17]), 16, 2, 16, 0)); FMT }
        8 => { v.extend_from_slice(&[last | 127, 0, 0, bits(4) as u8]); v.extend_from_slice(&[0; 16]); FMT }
        9 => { let ty = pick(&[0u8, 1, 2, 4, 77]); let b = valid_body(ty, 3); meta_block(&mut v, last != 0, ty, &b); let n = v.len(); let at = from + choose((n - from) as u32) as usize; v.truncate(at); EOF }
        _ => { let ty = pick(&[0u8, 1, 2, 4, 77]); let b = valid_body(ty, 3); meta_block(&mut v, last != 0, ty, &b); let n = v.len(); fault = Some(from + choose((n - from) as u32) as usize); IO }
    };
    if how != 9 { let b = valid_body(2, 1); meta_block(&mut v, false, 2, &b); let b = valid_body(4, 1); meta_block(&mut v, true, 4, &b) }
    let mut p = crate::byteio::Pieces::new(v, vec![]); if let Some(at) = fault { p.plan = vec![at]; p.fail_at = Some((at > 0) as usize) }
    let mut it = MetadataBlockReader::new(claxon::input::BufferedReader::new(p));
    for _ in 0..k { match it.next() { Some(Ok(_)) => {} _ => { check(false, "every block is delivered"); return } } }
    check(it.size_hint() == (1, None), "more blocks are announced");
    match it.next() { Some(Err(e)) => check(err_class(&e) == want, "the class of the error"), _ => { check(false, "a failure is reported"); return } }
    for _ in 0..3 { check(it.size_hint() == (0, Some(0)), "the end is announced"); check(it.next().is_none(), "nothing behind a failure") }
    reach(match want { UNS => "unsupported", FMT => "format", EOF => "end", _ => "fault" });
}

// ---------------------------------------------------------------- C18
/// Once through everything, so that what is set up on first use does not count.
pub fn warm() {
    let mut v = stream_start(16, 16, 2, 8); v.truncate(8); let si = streaminfo(16, 16, 2, 8, 0); v.extend_from_slice(&si); v[4] = 0; let mut b = Vec::new(); le32(&mut b, 1); b.push(b'v'); le32(&mut b, 1); le32(&mut b, 3); b.extend_from_slice(b"a=b"); meta_block(&mut v, false, 4, &b); meta_block(&mut v, true, 2, b"idata");
    let mut w = frame_header(false, 16, 1, 8, &[0]); put_const(&mut w, 1, 8); put_const(&mut w, 2, 8); v.extend_from_slice(&frame_end(w));
    match FlacReader::new(Cursor::new(v)) { Ok(mut r) => check(r.samples().count() == 32, "a complete stream is decoded"), _ => check(false, "a complete stream is opened") }
}
/// A block of any announced size and type with hardly any data behind the header: memory stays in proportion.
pub fn c18_announced() {
    warm(); let ty = bits(7) as u8; let l = bits(24) as u32; let mut v = vec![ty, (l >> 16) as u8, (l >> 8) as u8, l as u8]; for _ in 0..pick(&[0usize, 4, 8, 12, 17]) { v.push(byte()) }
    let big = l > 10 << 20; alloc_limit(if big && (ty == 2 || ty == 4) { 4096 } else { 16 * l as u64 + 65536 });
    let r = read_metadata_block_with_header(&mut Cursor::new(&v[..])); let c = class(&r); observe(c as u64);
    if big && (ty == 2 || ty == 4) { reach("big"); check(c == UNS, "very large blocks are unsupported") } else { reach("other") }
    drop(r); check(live() <= 4096, "nothing to speak of is kept");
}
/// The same while opening a stream, with both kinds of blocks and any options.
pub fn c18_open() {
    warm(); let mut v = stream_start(16, 16, 2, 16); v[4] = 0; let ty = pick(&[2u8, 4]); let l = bits(24) as u32; v.extend_from_slice(&[0x80 | ty, (l >> 16) as u8, (l >> 8) as u8, l as u8]); for _ in 0..pick(&[0usize, 9]) { v.push(byte()) }
    let o = FlacReaderOptions { metadata_only: choose(2) == 1, read_vorbis_comment: choose(2) == 1 };
    let big = l > 10 << 20; alloc_limit(if big { 1 << 16 } else { 16 * l as u64 + (1 << 16) });
    let r = FlacReader::new_ext(Cursor::new(&v[..]), o); let c = class(&r); observe(c as u64);
    if o.metadata_only && !o.read_vorbis_comment { reach("not read"); check(c == OK, "a block that is not wanted is not read") } else if big { reach("big"); check(c == UNS, "very large blocks are unsupported") } else { reach("small") }
    drop(r); check(live() <= 4096, "nothing to speak of is kept");
}
/// Announced lengths inside a comment block.
pub fn c18_comment() {
    warm(); let l = bits(24) as u32; assume(l >= 8 && l <= 10 << 20); let mut v = Vec::new(); let how = choose(3);
    match how { 0 => { le32(&mut v, bits(32) as u32) } 1 => { le32(&mut v, 0); le32(&mut v, bits(32) as u32) } _ => { le32(&mut v, 0); le32(&mut v, 1); le32(&mut v, bits(32) as u32); v.push(b'a') } }
    alloc_limit(16 * l as u64 + 65536); let r = read_metadata_block(&mut Cursor::new(&v[..]), 4, l); observe(class(&r) as u64); drop(r); check(live() <= 4096, "nothing to speak of is kept"); reach("comment");
}
/// Frames: never more than the largest block with eight channels, however the frame goes on.
pub fn c18_frame() {
    warm(); let free = choose(2) == 0; let (bs, cb) = if free { (byte(), byte()) } else { (pick(&[0x10u8, 0x70, 0xf0]), pick(&[0x02u8, 0x18, 0xa6])) };
    let mut v = vec![0xff, 0xf8, bs, cb, 0]; let bsx = match bs >> 4 { 6 => 1, 7 => 2, _ => 0 }; let srx = match bs & 15 { 12 => 1, 13 | 14 => 2, _ => 0 };
    for i in 0..bsx + srx { v.push(if free { byte() } else if i == 0 { 0xff } else { 0xfd }) } let c = crc8(&v); v.push(c); for _ in 0..if free { choose(2) } else { 3 } { v.push(byte()) }
    alloc_limit(2 * 8 * 65535 * 4 + 65536); let mut r = claxon::frame::FrameReader::new(Cursor::new(&v[..])); let b = r.read_next_or_eof(Vec::new()); observe(class(&b) as u64); reach("frame"); drop(b); check(live() <= 4096, "nothing to speak of is kept");
}
/// A buffer that is handed back is used again: decoding many blocks needs no more memory than the largest.
pub fn c18_reuse() {
    warm(); let mut v = Vec::new(); let sh: [(u64, u32); 3] = [(0, 512), (1, 192), (7, 256)]; let k = if thorough() { 5 } else { 3 }; let mut most = 0;
    for i in 0..k { let (ch, n) = pick(&sh); let mut w = frame_header(false, n, ch, 8, &[i]); for _ in 0..ch + 1 { put_const(&mut w, sbits(8), 8) } v.extend_from_slice(&frame_end(w)); most = most.max(4 * n as u64 * (ch + 1)) }
    let mut r = claxon::frame::FrameReader::new(Cursor::new(&v[..])); let start = pick(&[0usize, 2048]); let mut buf = Vec::with_capacity(start); alloc_limit(if start > 0 { (most * 7 / 8).max(4800) } else { 3 * most + 4096 });
    for _ in 0..k { match r.read_next_or_eof(buf) { Ok(Some(b)) => buf = b.into_buffer(), _ => { check(false, "a complete frame is decoded"); return } } }
    reach("reuse"); observe(buf.len() as u64);
}

// ---------------------------------------------------------------- C19
pub fn c19_marker() {
    let h = sym_vec(4); let mut v = h.clone(); let si = streaminfo(16, 16, 1, 8, 0); meta_block(&mut v, true, 0, &si); let good = h[0] == b'f' && h[1] == b'L' && h[2] == b'a' && h[3] == b'C';
    let c = class(&FlacReader::new(Cursor::new(v))); if good { reach("marker"); check(c == OK, "a stream with the marker is opened") } else { reach("other"); check(c == FMT, "anything else is refused") }
}
/// Sequences of metadata blocks under all options, against a model of what has to be read.
pub fn c19_options() {
    let o = FlacReaderOptions { metadata_only: choose(2) == 1, read_vorbis_comment: choose(2) == 1 };
    let k = 1 + choose(if thorough() { 4 } else { 3 }) as usize; let mut kinds = Vec::new(); for i in 0..k { kinds.push(if i == 0 { pick(&[0u8, 0, 0, 1, 4]) } else { pick(&[0u8, 1, 2, 4, 127]) }) }
    let mut v = b"fLaC".to_vec(); for i in 0..k { let b = valid_body(kinds[i], 2); meta_block(&mut v, i + 1 == k, kinds[i], &b) }
    let x = sbits(8); let mut w = frame_header(false, 3, 0, 8, &[0]); put_const(&mut w, x, 8); v.extend_from_slice(&frame_end(w));
    // the model
    let mut want = OK; let mut vc = false; let mut i = 1; if kinds[0] != 0 { want = FMT }
    while want == OK && i < k { if o.metadata_only && (!o.read_vorbis_comment || vc) { break } match kinds[i] { 0 | 127 => want = FMT, 4 => { if vc { want = FMT } vc = true } _ => {} } i += 1 }
    match FlacReader::new_ext(Cursor::new(v), o) {
        Err(e) => { reach("refused"); check(want == FMT && err_class(&e) == FMT, "a well-formed stream is opened") }
        Ok(mut r) => {
            check(want == OK, "missing and repeated blocks are refused"); let has = vc && o.read_vorbis_comment;
            check(r.vendor().is_some() == has, "comments are there exactly when present and wanted"); check(r.tags().len() == has as usize && r.get_tag("A").count() == has as usize, "tags are there exactly when present and wanted"); check(r.streaminfo().samples == Some(99), "the streaminfo");
            if o.metadata_only { reach("metadata only"); let how = choose(4); if how == 3 { let _ = r.into_inner(); return } expect_panic(true); match how { 0 => { let _ = r.blocks(); } 1 => { let _ = r.samples(); } _ => { let _ = r.into_samples(); } } expect_panic(false); check(false, "no audio from a reader for metadata") }
            else { reach("audio"); match choose(2) { 0 => { match r.blocks().read_next_or_eof(Vec::new()) { Ok(Some(b)) => check(b.duration() == 3 && b.sample(0, 2) as i64 == x, "audio starts behind the metadata"), _ => check(false, "audio starts behind the metadata") } }
                _ => { let mut n = 0; for s in r.samples() { match s { Ok(s) => check(s as i64 == x, "audio starts behind the metadata"), _ => check(false, "audio starts behind the metadata") } n += 1 } check(n == 3, "all audio") } } }
        }
    }
}
/// Metadata is not read further than asked: what follows may be anything, or nothing.
pub fn c19_lazy() {
    let rvc = choose(2) == 1; let o = FlacReaderOptions { metadata_only: true, read_vorbis_comment: rvc };
    let mut v = b"fLaC".to_vec(); let si = streaminfo(16, 16, 1, 8, 5); meta_block(&mut v, false, 0, &si); if rvc { if choose(2) == 1 { meta_block(&mut v, false, 1, &[0, 0]) } let b = valid_body(4, 0); meta_block(&mut v, false, 4, &b) }
    for _ in 0..pick(&[0u32, 1, 3, 8]) { v.push(byte()) }
    match FlacReader::new_ext(Cursor::new(v), o) { Ok(r) => { reach("lazy"); check(r.streaminfo().samples == Some(5), "the streaminfo"); check(r.vendor().is_some() == rvc, "the comments") } _ => check(false, "metadata is read only as far as wanted") }
}
/// The defaults, and `new` as a shorthand.
pub fn c19_default() {
    let d = FlacReaderOptions::default(); check(!d.metadata_only && d.read_vorbis_comment, "by default everything is read");
    let mut v = b"fLaC".to_vec(); let si = streaminfo(16, 16, 1, 8, 5); meta_block(&mut v, false, 0, &si); let b = valid_body(4, 0); meta_block(&mut v, true, 4, &b); let mark = byte(); v.push(mark); let n = v.len();
    match FlacReader::new(Cursor::new(v)) { Ok(r) => { check(r.vendor() == Some("v") && r.tags().len() == 1, "by default everything is read"); let c = r.into_inner().into_inner(); check(c.len() == n && c[n - 1] == mark, "the reader comes back"); reach("default") } _ => check(false, "a well-formed stream is opened") }
}

// ---------------------------------------------------------------- C21
fn lower(b: u8) -> u8 { if b >= b'A' && b <= b'Z' { b + 32 } else { b } }
pub fn nocase(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false } let mut r = true; for i in 0..a.len() { r &= lower(a[i]) == lower(b[i]) } r }
fn text(n: usize, name: bool) -> Vec<u8> { let v = sym_vec(n); for &b in &v { if name { assume(b >= 0x20 && b <= 0x7d && b != b'=') } else { assume(b < 0x80) } } v }
/// Comments with free names, looked up by a free needle: exactly the matching values, in order.
pub fn c21_lookup() {
    let k = choose(if thorough() { 5 } else { 4 }) as usize; let mut b = Vec::new(); le32(&mut b, 0); le32(&mut b, k as u32); let mut names = Vec::new(); let mut vals = Vec::new();
    for i in 0..k { let n = text(pick(&[1usize, 2]), true); let v = text(i & 1, false); le32(&mut b, (n.len() + 1 + v.len()) as u32); b.extend_from_slice(&n); b.push(b'='); b.extend_from_slice(&v); names.push(n); vals.push(v) }
    let mut s = b"fLaC".to_vec(); let si = streaminfo(16, 16, 1, 8, 5); meta_block(&mut s, false, 0, &si); meta_block(&mut s, true, 4, &b);
    let needle = text(pick(&[0usize, 1, 2]), false); let nd = match std::str::from_utf8(&needle) { Ok(x) => x, _ => return };
    let r = match FlacReader::new(Cursor::new(s)) { Ok(r) => r, _ => { check(false, "a well-formed stream is opened"); return } };
    let mut it = r.get_tag(nd);
    for i in 0..k { if nocase(&names[i], &needle) { reach("match"); match it.next() { Some(v) => bytes_eq(v.as_bytes(), &vals[i], "the value of every matching comment, in order"), None => check(false, "no matching comment is left out") } } }
    check(it.next().is_none() && it.next().is_none(), "no other comment matches"); reach("lookup");
}
/// Longer names in every combination of case, and needles that are not ASCII.
pub fn c21_case() {
    let base = b"TrackNumber|~"; let n = pick(&[6usize, 11]); let (mut name, mut needle) = (base[..n].to_vec(), base[..n].to_vec());
    for i in 0..n { name[i] = name[i] & 0xdf | (bits(1) << 5) as u8; needle[i] = needle[i] & 0xdf | (bits(1) << 5) as u8 }
    let odd = choose(6); if odd == 1 { let at = choose(n as u32) as usize; needle[at] = text(1, false)[0]; }
    if odd == 2 { let at = choose(n as u32 - 1) as usize; needle[at] = 0xc3; needle[at + 1] = 0x80 | bits(5) as u8 }
    // a letter that lower- or uppercases to an ASCII letter, or looks like one, or any other of two or three bytes
    if odd >= 3 { let at = if odd == 3 { pick(&[0usize, 1, 3, 4, 5]) } else { pick(&[1usize, 4]) }; let c: Vec<u8> = match odd { 3 => pick(&[&[0xe2u8, 0x84, 0xaa][..], &[0xc5, 0xbf], &[0xc4, 0xb0], &[0xc4, 0xb1], &[0xef, 0xbc, 0xab], &[0xc3, 0x9f]]).to_vec(), 4 => vec![0xc4 + bits(4) as u8, 0x80 | bits(6) as u8], _ => vec![0xe2, 0x84, 0x80 | bits(6) as u8] };
        if odd == 3 && choose(2) == 1 { let l = pick(&[b'k', b'K', b's', b'S', b'i', b'I']); name[at] = l } let tail = needle.split_off(at); needle.extend_from_slice(&c); needle.extend_from_slice(&tail[1..]) }
    let mut c = name.clone(); c.push(b'='); c.push(b'7'); let tags = vec![(String::from_utf8(c).unwrap(), n)];
    let nd = match std::str::from_utf8(&needle) { Ok(x) => x, _ => { check(false, "utf-8"); return } };
    let want = nocase(&name, &needle); if odd == 0 { check(want, "case only") } let got = GetTag::new(&tags, nd).next();
    if want { reach("match"); check(got == Some("7"), "lookup ignores case") } else { reach("other"); check(got.is_none(), "other names do not match") }
}
/// The pairs: name before the first separator, value behind it; their number is known.
pub fn c21_pairs() {
    let k = choose(4) as usize; let mut cs = Vec::new(); let mut raw = Vec::new();
    for i in 0..k { let n = text(i, true); let mut v = text(pick(&[0usize, 2]), false); if v.len() == 2 && choose(2) == 1 { v[0] = b'=' } let mut c = n.clone(); c.push(b'='); c.extend_from_slice(&v); cs.push((String::from_utf8(c).unwrap(), n.len())); raw.push((n, v)) }
    let mut t = Tags::new(&cs);
    for i in 0..k { check(t.len() == k - i && t.size_hint() == (k - i, Some(k - i)), "the number of tags left"); match t.next() { Some((n, v)) => { bytes_eq(n.as_bytes(), &raw[i].0, "the name"); bytes_eq(v.as_bytes(), &raw[i].1, "the value") } None => check(false, "every tag is listed") } }
    check(t.len() == 0 && t.next().is_none(), "no other tags"); reach("pairs");
}
/// Vendor, tags and lookup of an opened stream agree with the block read on its own.
pub fn c21_stream() {
    let v = text(choose(4) as usize, false); let mut b = Vec::new(); le32(&mut b, v.len() as u32); b.extend_from_slice(&v); le32(&mut b, 3);
    let names: [&[u8]; 3] = [b"ARTIST", b"", b"artist"]; for (i, n) in names.iter().enumerate() { if i == 1 { le32(&mut b, 0) } else { le32(&mut b, n.len() as u32 + 3); b.extend_from_slice(n); b.push(b'='); let t = text(2, false); b.extend_from_slice(&t) } }
    let vc = match read_metadata_block(&mut Cursor::new(b.clone()), 4, b.len() as u32) { Ok(MetadataBlock::VorbisComment(v)) => v, _ => { check(false, "a well-formed comment block is accepted"); return } };
    let mut s = b"fLaC".to_vec(); let si = streaminfo(16, 16, 1, 8, 5); meta_block(&mut s, false, 0, &si); meta_block(&mut s, false, 1, &[0; 3]); meta_block(&mut s, true, 4, &b);
    let r = match FlacReader::new(Cursor::new(s)) { Ok(r) => r, _ => { check(false, "a well-formed stream is opened"); return } };
    match r.vendor() { Some(x) => bytes_eq(x.as_bytes(), &v, "the vendor string"), None => check(false, "the vendor string") }
    check(r.tags().len() == vc.comments.len() && vc.comments.len() == 2, "all tags"); let mut it = r.get_tag("Artist");
    for (i, (n, x)) in r.tags().enumerate() { let (ref c, p) = vc.comments[i]; bytes_eq(n.as_bytes(), &c.as_bytes()[..p], "the name"); bytes_eq(x.as_bytes(), &c.as_bytes()[p + 1..], "the value"); match it.next() { Some(y) => bytes_eq(y.as_bytes(), x.as_bytes(), "lookup"), None => check(false, "lookup") } }
    check(it.next().is_none(), "lookup"); reach("stream");
}
