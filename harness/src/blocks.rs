//! C13 access to decoded blocks, C14 sample iteration.
use crate::frames::{chan_bps, chan_count, same, verb_frame};
use crate::sym::*;
use crate::util::*;
use claxon::frame::FrameReader;
use claxon::{Block, FlacReader};
use std::io::Cursor;

fn decode1(w: BitW, buf: Vec<i32>) -> Block {
    match FrameReader::new(Cursor::new(frame_end(w))).read_next_or_eof(buf) { Ok(Some(b)) => b, _ => { check(false, "a complete frame is decoded"); Block::empty() } }
}
fn old_buffer() -> Vec<i32> { let mut v = Vec::new(); for _ in 0..pick(&[0usize, 3, 40]) { v.push(bits(32) as i32) } v }

/// All ways to look at a block agree with each other and with the coded samples.
pub fn c13_access() {
    let chan = choose(11) as u64; let n = pick(&[1u32, 2, 5]); let (w, _) = verb_frame(chan, n, pick(&[8u32, 24]), 3);
    let b = decode1(w, old_buffer());
    check(b.channels() as usize == chan_count(chan), "the number of channels"); check(b.duration() == n, "the duration"); check(b.len() == n * b.channels(), "the length is duration times channels");
    check(b.time() == 3 * n as u64, "the time");
    for ch in 0..b.channels() { let c = b.channel(ch); check(c.len() == n as usize, "a channel is as long as the block"); for i in 0..n { check(b.sample(ch, i) == c[i as usize], "sample and channel agree") } }
    let (len, d) = (b.len() as usize, b.duration() as usize); let mut flat = Vec::new(); for ch in 0..b.channels() { flat.extend_from_slice(b.channel(ch)) }
    let buf = b.into_buffer(); check(buf.len() >= len, "the buffer holds the whole block"); for i in 0..len { check(buf[i] == flat[i], "the buffer holds the channels one after another") }
    observe(d as u64); reach("access");
}
/// Samples at free positions.
pub fn c13_index() {
    let chan = choose(4) as u64; let n = pick(&[1u32, 3]); let (w, want) = verb_frame(chan, n, 16, 0); let b = decode1(w, Vec::new());
    let ch = bits(32) as u32; let i = bits(32) as u32; assume(ch <= chan as u32 && i < n);
    let x = b.sample(ch, i); let y = b.channel(ch)[i as usize]; check(x == y, "sample and channel agree");
    check(x as i64 == want[conc(ch as u64) as usize][conc(i as u64) as usize], "the sample asked for"); reach("index");
}
/// The pairs of a stereo block.
pub fn c13_stereo() {
    let chan = pick(&[1u64, 8, 9, 10]); let n = pick(&[1u32, 2, 4, 7]); let (w, _) = verb_frame(chan, n, pick(&[8u32, 20]), 0); let b = decode1(w, old_buffer());
    let mut it = b.stereo_samples();
    for i in 0..n { match it.next() { Some((l, r)) => { check(l == b.sample(0, i), "left of the pair"); check(r == b.sample(1, i), "right of the pair") } None => check(false, "one pair for every sample") } }
    for _ in 0..3 { check(it.next().is_none(), "no more pairs than samples") } reach("stereo");
}
/// What is not there cannot be read.
pub fn c13_panics() {
    let chan = choose(8) as u64; let n = pick(&[1u32, 2, 4]); let (w, _) = verb_frame(chan, n, 8, 0); let b = decode1(w, old_buffer());
    let how = choose(4); let ch = bits(32) as u32; let i = bits(32) as u32;
    match how { 0 => { assume(ch >= b.channels()); expect_panic(true); observe(b.channel(ch).len() as u64); }
        1 => { assume(ch >= b.channels()); expect_panic(true); observe(b.sample(ch, i) as u64); }
        2 => { assume(i >= n); expect_panic(true); observe(b.sample(b.channels() - 1, i) as u64); }
        _ => { if chan == 1 { return } expect_panic(true); observe(b.stereo_samples().count() as u64); } }
    expect_panic(false); check(false, "access outside the block is refused");
}
pub fn c13_empty() {
    let b = Block::empty(); check(b.len() == 0 && b.channels() == 0 && b.duration() == 0 && b.time() == 0, "the empty block is empty");
    match choose(3) { 0 => { check(b.into_buffer().is_empty(), "the empty block has no samples"); reach("empty") }
        1 => { let (c, i) = (bits(32) as u32, bits(32) as u32); expect_panic(true); observe(b.sample(c, i) as u64); expect_panic(false); check(false, "the empty block has no samples") }
        _ => { expect_panic(true); observe(b.stereo_samples().count() as u64); expect_panic(false); check(false, "the empty block has no samples") } }
}

/// Drives `samples()` (0), `into_samples()` (1) or `samples()` re-created at a block boundary (2).
fn all<R: std::io::Read>(r: FlacReader<R>, how: u32, mut f: impl FnMut(usize, Option<claxon::Result<i32>>) -> bool) {
    let mut k = 0; let mut r = r;
    if how == 1 { let mut it = r.into_samples(); loop { let x = it.next(); if !f(k, x) { return } k += 1 } }
    let mut it = r.samples(); loop { let x = it.next(); if !f(k, x) { return } k += 1 }
}
fn stream(k: u32, shapes: &[(u64, u32, u32)]) -> (Vec<u8>, Vec<Vec<Vec<i64>>>) {
    let mut v = stream_start(16, 4096, 2, 16); let mut w = Vec::new();
    for i in 0..k { let s = pick(shapes); let (f, x) = verb_frame(s.0, s.1, s.2, i as u64); v.extend_from_slice(&frame_end(f)); w.push(x) }
    (v, w)
}
fn interleave(w: &[Vec<Vec<i64>>]) -> Vec<i64> { let mut o = Vec::new(); for b in w { for i in 0..b[0].len() { for c in b { o.push(c[i]) } } } o }
/// Iteration yields every sample of every block once, interleaved, then ends for good.
pub fn c14_order() {
    let k = choose(if thorough() { 5 } else { 4 }); let (v, w) = stream(k, &[(0, 1, 8), (0, 3, 24), (1, 2, 16), (2, 1, 12), (3, 4, 8), (7, 2, 16)]); let want = interleave(&w); let n = want.len();
    let r = match FlacReader::new(Cursor::new(v)) { Ok(r) => r, _ => { check(false, "a complete stream is opened"); return } };
    all(r, choose(2), |i, x| { match x { Some(Ok(s)) => { check(i < n && s as i64 == want[i], "all samples, interleaved, block after block"); true } Some(Err(_)) => { check(false, "a complete stream gives no error"); false }
        None => { check(i >= n, "no sample is left out"); i < n + 2 } } });
    reach("order");
}
/// A damaged or unsupported frame or a failing source: everything before it, the error once, then nothing.
pub fn c14_error() {
    let k = choose(3); let (mut v, w) = stream(k, &[(0, 2, 8), (1, 3, 16), (2, 1, 24)]); let want = interleave(&w); let n = want.len();
    let how = choose(10); let (mut f, _) = verb_frame(pick(&[0u64, 1]), 2, if how == 4 { 7 } else { 8 }, k as u64);
    if how >= 5 && how <= 7 { f = frame_header(false, 4, 0, 8, &[k as u8]);
        match how { 5 => { sub_header(&mut f, T_FIXED, 0); f.put(0, 2); f.put(0, 4); f.put(15, 4); f.put(5, 5); for _ in 0..4 { f.put(bits(5), 5) } } // escape code: unencoded partition
            6 => { sub_header(&mut f, T_LPC, 0); f.put(bits(8), 8); f.put(3, 4); f.put(0x10 | bits(4), 5); f.put(bits(4), 4); f.put(0, 10); f.put(7, 3) } // negative shift
            _ => { f.put(bits(1), 1); f.put(2 + bits(1), 6); f.put(0, 1); for _ in 0..4 { f.put(bits(8), 8) } } } } // reserved subframe type
    let mut f = frame_end(f); let l = f.len(); let from = v.len(); let mut fail = None;
    let (kind, after) = match how { 0 => { let e = byte(); assume(e != 0); f[l - 1] ^= e; (FMT, true) } 1 => { f.truncate(1 + choose(l as u32 - 1) as usize); (EOF, false) } 2 => { f[0] = 0x12; (FMT, true) } 3 => { f[2] |= 0x0f; (FMT, true) }
        4 | 5 | 6 => (UNS, true), 7 => (FMT, true), _ => { let at = choose(l as u32) as usize; let mut plan = Vec::new(); plan.push(from + at); fail = Some(plan); (IO, true) } };
    v.extend_from_slice(&f); if after { for i in 1..3 { let (g, _) = verb_frame(0, 2, 8, k as u64 + i); v.extend_from_slice(&frame_end(g)); } }
    let mut p = crate::byteio::Pieces::new(v, vec![]); if let Some(plan) = fail { p.plan = plan; p.fail_at = Some(1); if how == 9 { p.kind = std::io::ErrorKind::BrokenPipe } }
    let r = match FlacReader::new(p) { Ok(r) => r, _ => { check(false, "a complete stream is opened"); return } };
    all(r, choose(2), |i, x| { match x { Some(Ok(s)) => { check(i < n && s as i64 == want[i], "all samples before the damage"); true } Some(Err(e)) => { check(i == n, "the error comes where the damage is, once"); check(err_class(&e) == kind, "the class of the error"); true }
        None => { check(i > n, "an error is not passed over in silence"); i < n + 5 } } });
    reach(match kind { FMT => "format", EOF => "end", IO => "fault", _ => "unsupported" });
}
/// A second iterator goes on behind the block that the first one was in.
pub fn c14_resume() {
    let (v, w) = stream(3, &[(0, 2, 8), (1, 2, 16)]); let mut r = match FlacReader::new(Cursor::new(v)) { Ok(r) => r, _ => { check(false, "a complete stream is opened"); return } };
    let first = interleave(&w[..1]); let t = 1 + choose(first.len() as u32) as usize;
    match choose(2) { 0 => { let mut it = r.samples(); for i in 0..t { match it.next() { Some(Ok(s)) => check(s as i64 == first[i], "samples of the first block"), _ => check(false, "a complete stream gives no error") } } }
        _ => { let mut b = r.blocks(); match b.read_next_or_eof(Vec::new()) { Ok(Some(b)) => same(&b, &w[0]), _ => check(false, "a complete stream gives no error") } } }
    let rest = interleave(&w[1..]); let n = rest.len();
    all(r, choose(2), |i, x| match x { Some(Ok(s)) => { check(i < n && s as i64 == rest[i], "iteration goes on with the next block"); true } Some(Err(_)) => { check(false, "a complete stream gives no error"); false } None => { check(i == n, "no sample is left out"); false } });
    reach("resume");
}
/// Predicted and decorrelated channels, through both interfaces.
pub fn c14_coded() {
    let chan = pick(&[0u64, 1, 8, 9, 10]); let bps = 16; let n = 4; let mut v = stream_start(16, 16, 2, 16); let k = 2;
    for i in 0..k { let mut w = frame_header(false, n, chan, bps, &[i]);
        for ch in 0..chan_count(chan) { let sb = chan_bps(chan, ch, bps); if ch == 0 { sub_header(&mut w, T_FIXED + 1, 0); put_s(&mut w, sbits(sb), sb); w.put(0, 2); w.put(0, 4); w.put(5, 4); for j in 0..3 { rice_sym(j, 5, j == 1).put(&mut w, 5) } } else { put_const(&mut w, sbits(sb), sb) } }
        v.extend_from_slice(&frame_end(w)); }
    let mut a = match FlacReader::new(Cursor::new(v.clone())) { Ok(r) => r, _ => { check(false, "a complete stream is opened"); return } };
    let mut want = Vec::new(); { let mut br = a.blocks(); let mut buf = Vec::new(); while let Ok(Some(b)) = br.read_next_or_eof(buf) { for i in 0..b.duration() { for c in 0..b.channels() { want.push(b.sample(c, i)) } } buf = b.into_buffer() } }
    check(want.len() == k as usize * n as usize * chan_count(chan), "every block is decoded");
    let b = match FlacReader::new(Cursor::new(v)) { Ok(r) => r, _ => return }; let m = want.len();
    all(b, choose(2), |i, x| match x { Some(Ok(s)) => { check(i < m && s == want[i], "samples and blocks agree"); true } _ => { check(i == m, "samples and blocks agree in number"); false } }); reach("coded");
}
/// Long blocks: every way to look at them reaches the last sample.
pub fn c13_long() {
    let chan = pick(&[0u64, 1, 7, 9]); let n = pick(&[4097u32, 4609, 32768, 65535]); if n > 10000 && chan == 7 && !thorough() { return }
    let mut w = frame_header(false, n, chan, 8, &[0]); let mut at = Vec::new(); w.out.reserve(9 * n as usize);
    for ch in 0..chan_count(chan) { let sb = chan_bps(chan, ch, 8); sub_header(&mut w, T_VERB, 0); for i in 0..n { let x = if ch + 1 == chan_count(chan) && i + 3 >= n { sbits(sb) } else { (i as i64 + ch as i64 * 3) % 100 - 50 }; put_s(&mut w, x, sb) } at.push(0) }
    let b = decode1(w, Vec::new()); check(b.duration() == n && b.len() == n * at.len() as u32, "the shape of the block");
    for ch in 0..b.channels() { let c = b.channel(ch); check(c.len() == n as usize, "a channel is as long as the block"); let mut i = 0; while i < n { check(b.sample(ch, i) == c[i as usize], "sample and channel agree"); i += 1 } }
    if at.len() == 2 { let mut i = 0; let (l, r) = (b.channel(0), b.channel(1)); for (x, y) in b.stereo_samples() { check(i < n as usize && x == l[i] && y == r[i], "the pair at every position"); i += 1 } check(i == n as usize, "one pair for every sample") }
    reach("long");
}
/// Many short blocks, one after the other.
pub fn c14_many() {
    let k = pick(&[127usize, 257, 66000]); let last = sbits(8); let mut v = stream_start(16, 16, 1, 8);
    for i in 0..k { let mut w = frame_header(false, 1, 0, 8, &coded(i as u64)); put_const(&mut w, if i + 1 == k { last } else { (i % 199) as i64 - 99 }, 8); v.extend_from_slice(&frame_end(w)) }
    let r = match FlacReader::new(Cursor::new(v)) { Ok(r) => r, _ => { check(false, "a complete stream is opened"); return } };
    all(r, choose(2), |i, x| match x { Some(Ok(s)) => { check(i < k && s as i64 == if i + 1 == k { last } else { (i % 199) as i64 - 99 }, "samples come block after block"); true } Some(Err(_)) => { check(false, "a complete stream gives no error"); false } None => { check(i == k, "no sample is left out"); false } });
    reach("many");
}
/// Long and short blocks in turn, sample by sample.
pub fn c14_long() {
    let sizes = pick(&[[4608u32, 1, 4609], [16, 65535, 2], [8192, 8193, 3], [3, 2, 32769]]); let chan = if sizes[1] > 9000 || sizes[2] > 9000 { choose(2) as u64 } else { pick(&[0u64, 1, 7]) };
    let mut v = stream_start(16, 65535, 2, 8); let mut want = Vec::new();
    for (k, &n) in sizes.iter().enumerate() { let mut w = frame_header(false, n, chan, 8, &[k as u8]); w.out.reserve(9 * n as usize); let mut cs: Vec<Vec<i64>> = Vec::new();
        for ch in 0..chan_count(chan) { let mut xs = Vec::with_capacity(n as usize); if ch == 1 { let x = if chan == 1 { sbits(8) } else { 77 }; put_const(&mut w, x, 8); for _ in 0..n { xs.push(x) } } else { sub_header(&mut w, T_VERB, 0); for i in 0..n { let x = if (ch + 1 == chan_count(chan) || chan == 1) && i + 2 >= n { sbits(8) } else { (i as i64 * 5 + ch as i64 * 3 + k as i64) % 120 - 60 }; put_s(&mut w, x, 8); xs.push(x) } } cs.push(xs) }
        v.extend_from_slice(&frame_end(w)); for i in 0..n as usize { for c in &cs { want.push(c[i]) } } }
    let n = want.len(); let r = match FlacReader::new(Cursor::new(v)) { Ok(r) => r, _ => { check(false, "a complete stream is opened"); return } };
    all(r, choose(2), |i, x| match x { Some(Ok(s)) => { check(i < n && s as i64 == want[i], "samples come interleaved, block after block"); true } Some(Err(_)) => { check(false, "a complete stream gives no error"); false } None => { check(i == n, "no sample is left out"); false } });
    reach("long");
}
