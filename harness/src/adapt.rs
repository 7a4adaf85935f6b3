//! The iterators under every way of driving them: counting, folding, skipping, jumping.
use claxon::frame::*; use claxon::metadata::*; use claxon::FlacReader; use std::io::Cursor;
use crate::{sym::*, util::*};

/// Drives an iterator of `n` items in one of many ways; `ok(i, item)` says whether item `i` is right.
fn drive<I: Iterator>(mut it: I, n: usize, mut ok: impl FnMut(usize, I::Item)) {
    let from = if n > 1 { choose(2) as usize } else { 0 };
    for i in 0..from { match it.next() { Some(x) => ok(i, x), None => { check(false, "an item is missing"); return } } }
    match choose(9) {
        0 => { let k = choose(n as u32 + 2) as usize; let x = it.nth(k); check(x.is_some() == (from + k < n), "jumping ahead ends where the items end"); if let Some(x) = x { ok(from + k, x); let y = it.next(); check(y.is_some() == (from + k + 1 < n), "behind a jump comes the next item"); if let Some(y) = y { ok(from + k + 1, y) } } }
        1 => { let s = 1 + choose(3) as usize; let mut i = from; for x in it.step_by(s).take(n + 2) { if i < n { ok(i, x) } i += s } let want = from + (n - from + s - 1) / s * s; check(i == want, "stepping reaches every item it should") }
        2 => { let k = choose(n as u32 + 2) as usize; let mut i = from + k; for x in it.skip(k).take(n + 2) { if i < n { ok(i, x) } i += 1 } check(i == if from + k < n { n } else { from + k }, "skipping leaves the rest") }
        3 => { let k = choose(n as u32 + 1) as usize; let mut i = from; for x in it.by_ref().take(k) { if i < n { ok(i, x) } i += 1 } check(i == if from + k < n { from + k } else { n }, "taking gives as many as asked for"); let y = it.next(); check(y.is_some() == (i < n), "behind those taken comes the next item"); if let Some(y) = y { ok(i, y) } }
        4 => { let mut i = from; let mut p = it.by_ref().peekable(); while p.peek().is_some() && i < n { if let Some(x) = p.next() { ok(i, x) } i += 1 } check(i == n && p.peek().is_none(), "every item, then the end") }
        5 => { let mut i = from; let mut f = it.fuse(); while let Some(x) = f.next() { if i >= n { break } ok(i, x); i += 1 } check(i == n && f.next().is_none(), "every item, then the end") }
        6 => check(it.count() == n - from, "counting counts every item"),
        7 => { let x = it.last(); check(x.is_some() == (from < n), "the last item"); if let Some(x) = x { ok(n - 1, x) } }
        _ => { let e = it.fold(from, |i, x| { if i < n { ok(i, x) } i + 1 }); check(e == n, "folding passes over every item") }
    }
}
/// Pairs of a stereo block.
pub fn c13_adapt() {
    let n = pick(&[1u32, 2, 5]); let (w, _) = crate::frames::verb_frame(pick(&[1u64, 10]), n, 8, 0);
    let b = match FrameReader::new(Cursor::new(frame_end(w))).read_next_or_eof(Vec::new()) { Ok(Some(b)) => b, _ => { check(false, "a complete frame is decoded"); return } };
    drive(b.stereo_samples(), n as usize, |i, p| check(p.0 == b.channel(0)[i] && p.1 == b.channel(1)[i], "the pair at every position")); reach("adapt");
}
/// Samples of a stream, which may end with a broken frame.
pub fn c14_adapt() {
    let mut v = stream_start(16, 4096, 2, 8); let mut want = Vec::new(); let k = choose(3);
    for i in 0..k { let s = pick(&[(0u64, 2u32), (1, 1), (2, 1)]); let (w, x) = crate::frames::verb_frame(s.0, s.1, 8, i as u64); v.extend_from_slice(&frame_end(w)); for j in 0..s.1 as usize { for c in &x { want.push(c[j]) } } }
    let cut = choose(2) == 1; if cut { v.push(0xff) } let m = want.len(); let n = m + cut as usize;
    let r = match FlacReader::new(Cursor::new(v)) { Ok(r) => r, _ => { check(false, "a complete stream is opened"); return } };
    let ok = |i: usize, x: claxon::Result<i32>| match x { Ok(s) => check(i < m && s as i64 == want[i], "every sample in its place"), Err(e) => check(i == m && cut && err_class(&e) == EOF, "the error in its place") };
    match choose(2) { 0 => { let mut r = r; drive(r.samples(), n, ok) } _ => drive(r.into_samples(), n, ok) } reach("adapt");
}
/// Blocks of metadata, up to the last one or to a failure.
pub fn c17_adapt() {
    let k = 1 + choose(3) as usize; let bad = choose(2) == 1; let mut v = Vec::new(); let mut types = Vec::new();
    for i in 0..k { let ty = pick(&[1u8, 2, 7]); let b = crate::meta::valid_body(ty, 3); meta_block(&mut v, !bad && i + 1 == k, ty, &b); types.push(ty) }
    if bad { v.extend_from_slice(&[127, 0, 0, 0]) } else { v.extend_from_slice(&[1, 0, 0, 0]) } let n = k + bad as usize;
    drive(MetadataBlockReader::new(Cursor::new(v)), n, |i, b| match b { Ok(b) => check(i < k && match b { MetadataBlock::Padding { .. } => types[i] == 1, MetadataBlock::Application { .. } => types[i] == 2, MetadataBlock::Reserved => types[i] == 7, _ => false }, "blocks come in order"), Err(e) => check(i == k && err_class(&e) == FMT, "the failure in its place") }); reach("adapt");
}
/// Comments and values of a tag.
pub fn c21_adapt() {
    let k = choose(4) as usize; let mut cs = Vec::new(); let mut hit = Vec::new();
    for i in 0..k { let c = pick(&["aB=1", "AB=", "ab2=", "=x"]); let e = c.find('=').unwrap(); if e == 2 { hit.push(i) } cs.push((String::from(c), e)) }
    match choose(3) { 0 => drive(Tags::new(&cs), k, |i, t| check(t.0 == &cs[i].0[..cs[i].1] && t.1 == &cs[i].0[cs[i].1 + 1..], "every comment in its place")),
        1 => drive(GetTag::new(&cs, "Ab"), hit.len(), |i, t| check(t == &cs[hit[i]].0[3..], "every value in its place")),
        _ => { let f = choose(k as u32 + 1) as usize; let mut t = Tags::new(&cs); for _ in 0..f { t.next(); } check(t.len() == k - f, "the number of comments left"); if f < k { let j = choose((k - f) as u32) as usize; t.nth(j); check(t.len() == k - f - j - 1, "the number of comments left behind a jump") } } } reach("adapt");
}
