//! C22 whole streams from an encoder's point of view, C23 independence of the delivery of the bytes.
use crate::byteio::Pieces;
use crate::frames::{chan_bps, chan_count};
use crate::sym::*;
use crate::util::*;
use claxon::{FlacReader, FlacReaderOptions};
use std::io::Cursor;

/// One channel in the chosen coding. Predicted channels get free residuals with a known sign and quotient pattern; the
/// samples follow from them, so that every coded channel is one that an encoder makes from those samples.
fn channel(w: &mut BitW, method: u32, n: usize, bps: u32) -> Vec<i64> {
    match method {
        0 => { let x = sbits(bps); put_const(w, x, bps); let mut xs = Vec::new(); for _ in 0..n { xs.push(x) } xs }
        1 => { let mut xs = Vec::new(); for _ in 0..n { xs.push(sbits(bps)) } put_verbatim(w, &xs, bps); xs }
        2 | 3 => { let order = (method as usize - 1) * 2 - 1; predicted(w, T_FIXED + order as u64, order, n, bps, &[&[][..], &[1], &[2, -1], &[3, -3, 1]][order], 0, 0) }
        4 => { sub_header(w, T_VERB, 2); let mut xs = Vec::new(); for _ in 0..n { let x = sbits(bps - 2); put_s(w, x, bps - 2); xs.push(x << 2) } xs }
        5 => { let cs = [sbits(6), sbits(6)]; predicted(w, T_LPC + 1, 2, n, bps, &cs, 6, 3) }
        _ => predicted(w, T_LPC + 1, 2, n, bps, &[20, -11], 6, 4), // stays in range
    }
}
fn predicted(w: &mut BitW, ty: u64, order: usize, n: usize, bps: u32, cs: &[i64], prec: u32, shift: u32) -> Vec<i64> {
    sub_header(w, ty, 0); let mut xs = Vec::new(); for _ in 0..order { let x = sbits(bps); put_s(w, x, bps); xs.push(x) }
    if prec > 0 { w.put(prec as u64 - 1, 4); w.put(shift as u64, 5); for &c in cs { put_s(w, c, prec) } }
    let parts = if n % 2 == 0 && n / 2 >= order { 1 } else { 0 }; w.put(parts, 2); w.put(parts, 4); let per = n >> parts;
    if order == per { w.put(9, 4 + parts as u32) } // the first partition may be empty
    for i in order..n { let k = if i < per { 5 } else { 3 }; if i == order || i == per { w.put(k as u64, 4 + parts as u32) }
        let r = rice_sym(i as u32 % 3, k, i & 1 == 1); r.put(w, k); let mut p = 0; for j in 0..order { p += cs[j] * xs[i - 1 - j] } xs.push(((p >> shift) + r.value(k)) as i32 as i64) }
    xs
}
/// A frame and the PCM that it codes.
fn frame(out: &mut Vec<u8>, variable: bool, num: u64, chan: u64, n: u32, bps: u32, methods: [u32; 2]) -> Vec<Vec<i64>> {
    let mut w = frame_header(variable, n, chan, bps, &coded(num)); let mut c = Vec::new();
    for ch in 0..chan_count(chan) { c.push(channel(&mut w, methods[ch & 1], n as usize, chan_bps(chan, ch, bps))) }
    out.extend_from_slice(&frame_end(w));
    match chan { 8 => { for i in 0..n as usize { c[1][i] = c[0][i] - c[1][i] } }
        9 => { for i in 0..n as usize { c[0][i] = c[0][i] + c[1][i] } }
        10 => { for i in 0..n as usize { let (m, s) = (2 * c[0][i] + (c[1][i] & 1), c[1][i]); c[0][i] = (m + s) >> 1; c[1][i] = (m - s) >> 1 } } _ => {} }
    c
}
fn metadata(variant: u32) -> Vec<u8> {
    let mut v = b"fLaC".to_vec(); let si = streaminfo(16, 16, 2, 8, 0);
    meta_block(&mut v, variant == 0, 0, &si); if variant == 0 { return v }
    if variant >= 2 { meta_block(&mut v, false, 1, &[0; 9]); let d = sym_vec(7); meta_block(&mut v, false, 2, &d); let d = sym_vec(18); meta_block(&mut v, false, 3, &d) }
    let mut b = Vec::new(); le32(&mut b, 0); le32(&mut b, 1); le32(&mut b, 3); b.extend_from_slice(b"t=v"); meta_block(&mut v, true, 4, &b); v
}
fn pcm(frames: &[Vec<Vec<i64>>]) -> Vec<i64> { let mut o = Vec::new(); for f in frames { for i in 0..f[0].len() { for c in f { o.push(c[i]) } } } o }
fn expect(r: FlacReader<impl std::io::Read>, want: &[i64], how: u32) {
    let mut r = r; let mut i = 0;
    match how {
        0 => { let mut b = r.blocks(); let mut buf = Vec::new();
            loop { match b.read_next_or_eof(buf) { Ok(Some(x)) => { for k in 0..x.duration() { for ch in 0..x.channels() { check(i < want.len(), "no extra samples"); check(x.sample(ch, k) as i64 == want[i], "the sample that was encoded"); i += 1 } } buf = x.into_buffer() } Ok(None) => break, Err(_) => { check(false, "a well-formed stream is decoded"); return } } } }
        1 => { for s in r.samples() { match s { Ok(s) => { check(i < want.len(), "no extra samples"); check(s as i64 == want[i], "the sample that was encoded"); i += 1 } Err(_) => { check(false, "a well-formed stream is decoded"); return } } } }
        _ => { for s in r.into_samples() { match s { Ok(s) => { check(i < want.len(), "no extra samples"); check(s as i64 == want[i], "the sample that was encoded"); i += 1 } Err(_) => { check(false, "a well-formed stream is decoded"); return } } } }
    }
    check(i == want.len(), "every sample comes back");
}
/// Streams of frames in every combination of stereo mode and subframe coding.
pub fn c22_modes() {
    let chan = pick(&[0u64, 1, 2, 8, 9, 10]); let mut ms = [choose(6), choose(6)]; if chan >= 8 { for m in &mut ms { if *m == 5 { *m = 6 } } } let bps = pick(&[8u32, 16, 24]); let n = pick(&[5u32, 6]); let how = if thorough() { choose(3) } else { (chan as u32 + ms[0]) % 3 };
    let mut v = metadata(0); let mut all = Vec::new(); for i in 0..2 { all.push(frame(&mut v, false, i, chan, n, bps, if i == 0 { ms } else { [ms[1], ms[0]] })) }
    let w = pcm(&all); match FlacReader::new(Cursor::new(v)) { Ok(r) => expect(r, &w, how), _ => check(false, "a well-formed stream is opened") } reach("stream");
}
/// Streams whose frames change shape from one to the next, behind all kinds of metadata.
pub fn c22_mixed() {
    let mut v = metadata(choose(3)); let var = choose(2) == 1; let mut all = Vec::new(); let k = if thorough() { 4 } else { 3 }; let mut at = 0;
    for i in 0..k { let (chan, n, bps, ms) = pick(&[(10u64, 4u32, 16u32, [3u32, 1u32]), (0, 7, 24, [5, 5]), (7, 2, 8, [1, 0]), (9, 3, 12, [4, 2])]); let f = frame(&mut v, var, if var { at } else { i }, chan, n, bps, ms); at += n as u64; all.push(f) }
    let w = pcm(&all); match FlacReader::new(Cursor::new(v)) { Ok(r) => expect(r, &w, choose(3)), _ => check(false, "a well-formed stream is opened") } reach("stream");
}
/// Every predictor on blocks around its order and beyond.
pub fn c22_predictors() {
    let chan = pick(&[0u64, 8, 10]); let kind = choose(37); let order = if kind < 5 { kind } else { kind - 4 } as usize; let extra = if thorough() { choose(28) } else { pick(&[0u32, 1, 2, 3, 4, 5, 8, 11, 12, 13, 14, 15, 20]) }; let n = order as u32 + extra; if n == 0 { return }
    if chan != 0 && !thorough() && (extra + kind) % 5 != 0 { return }
    let mut v = metadata(0); let mut all = Vec::new(); let mut w = frame_header(false, n, chan, 16, &[0]); let cs: Vec<i64> = (0..order as i64).map(|j| (j * 7 + order as i64) % 5 - 2).collect();
    for ch in 0..chan_count(chan) { let sb = chan_bps(chan, ch, 16); let b = if kind < 5 { sb - 5 } else { sb - 2 }; // prediction stays in range
        let xs = if kind < 5 { sub_predicted(&mut w, T_FIXED + order as u64, order, n as usize, sb, b, [&[][..], &[1], &[2, -1], &[3, -3, 1], &[4, -6, 4, -1]][order], 0, 0) } else { sub_predicted(&mut w, T_LPC + order as u64 - 1, order, n as usize, sb, b, &cs, 5, 6) }; all.push(xs) }
    v.extend_from_slice(&frame_end(w)); if chan == 8 { for i in 0..n as usize { all[1][i] = all[0][i] - all[1][i] } }
    if chan == 10 { for i in 0..n as usize { let (m, s) = (2 * all[0][i] + (all[1][i] & 1), all[1][i]); all[0][i] = (m + s) >> 1; all[1][i] = (m - s) >> 1 } }
    let w = pcm(&[all]); let how = (extra + kind) % 3; match FlacReader::new(Cursor::new(v)) { Ok(r) => expect(r, &w, how), _ => check(false, "a well-formed stream is opened") } reach(if kind < 5 { "fixed" } else { "linear" });
}
fn sub_predicted(w: &mut BitW, ty: u64, order: usize, n: usize, bps: u32, free: u32, cs: &[i64], prec: u32, shift: u32) -> Vec<i64> {
    sub_header(w, ty, 0); let mut xs: Vec<i64> = Vec::new(); for i in 0..order { let x = if ty < 32 && i > 0 { xs[i - 1] } else { sbits(free) }; put_s(w, x, bps); xs.push(x) }
    if prec > 0 { w.put(prec as u64 - 1, 4); w.put(shift as u64, 5); for &c in cs { put_s(w, c, prec) } }
    w.put(0, 2); w.put(0, 4); w.put(2, 4);
    for i in order..n { let r = rice_sym(i as u32 % 2, 2, i & 1 == 1); r.put(w, 2); let mut p = 0; for j in 0..order { p += cs[j] * xs[i - 1 - j] } xs.push(((p >> shift) + r.value(2)) as i32 as i64) }
    xs
}
/// Long blocks: free samples here and there, every position in its place.
pub fn c22_long() {
    let chan = pick(&[0u64, 1, 10]); let n = pick(&[192u32, 255, 600, 4096, 4608, 4700, 20000]); if n > 5000 && chan == 1 { return } let mut v = metadata(0); let mut all = Vec::new(); let mut w = frame_header(false, n, chan, 16, &[0]);
    for ch in 0..chan_count(chan) { let sb = chan_bps(chan, ch, 16); sub_header(&mut w, T_VERB, 0); let mut xs = Vec::new(); for i in 0..n { let x = if if n < 1000 { i % 97 < 3 || i + 2 >= n } else { ch + 1 == chan_count(chan) && i + 2 >= n } { sbits(sb) } else { (i as i64 * 1237 + ch as i64 * 99) % 30000 - 15000 }; put_s(&mut w, x, sb); xs.push(x) } all.push(xs) }
    v.extend_from_slice(&frame_end(w)); if chan == 10 { for i in 0..n as usize { let (m, s) = (2 * all[0][i] + (all[1][i] & 1), all[1][i]); all[0][i] = (m + s) >> 1; all[1][i] = (m - s) >> 1 } }
    let w = pcm(&[all]); match FlacReader::new(Cursor::new(v)) { Ok(r) => expect(r, &w, choose(3)), _ => check(false, "a well-formed stream is opened") } reach("stream");
}
/// What goes with which piece of input must not matter: the same samples and tags, however the bytes are handed out.
pub fn c23_pieces() {
    let mut v = metadata(2); let mut all = Vec::new(); let shape = choose(2);
    all.push(if shape == 0 { frame(&mut v, false, 0, 10, 4, 16, [2, 1]) } else { frame(&mut v, false, 0, 1, 5, 8, [5, 0]) }); all.push(frame(&mut v, false, 1, 0, 3, 12, [1, 1])); let w = pcm(&all);
    let len = v.len(); let plan = match choose(4) { 0 => vec![1; len], 1 => { let a = 1 + choose(len as u32 - 1) as usize; vec![a] } 2 => { let p = 2 + choose(15) as usize; vec![p; len / p + 1] } _ => { let mut p = Vec::new(); let a = choose(13) as usize; for i in 0..40 { p.push(1 + (i * a + i / 3) % 11) } p } };
    let how = if thorough() { choose(3) } else { shape + (plan[0] as u32 & 1) };
    match FlacReader::new(Pieces::new(v, plan)) { Ok(r) => { check(r.get_tag("T").next() == Some("v"), "the tags"); expect(r, &w, how) } _ => check(false, "a well-formed stream is opened") } reach("pieces");
}
/// Streams longer than the internal buffer: its boundary may fall anywhere.
pub fn c23_boundary() {
    let pad = if thorough() { choose(64) as usize } else { choose(8) as usize * 5 }; let whole = pick(&[2048usize, 4096]); let mut v = b"fLaC".to_vec(); let si = streaminfo(16, 16, 2, 8, 0); meta_block(&mut v, false, 0, &si);
    let fill = whole - 30 - v.len() + pad - 8; let mut z = vec![0u8; fill]; for i in 0..4 { z[fill - 1 - i] = byte() } meta_block(&mut v, false, pick(&[1u8, 2]), &z); meta_block(&mut v, true, 1, &[]);
    let mut all = Vec::new(); all.push(frame(&mut v, false, 0, 1, 5, 8, [1, 3])); all.push(frame(&mut v, false, 1, 10, 4, 16, [5, 1])); let w = pcm(&all); let piece = pick(&[0usize, 1000, 2047]);
    match FlacReader::new(Pieces::new(v, vec![piece; 10])) { Ok(r) => expect(r, &w, choose(2)), _ => check(false, "a well-formed stream is opened") } reach("boundary");
}
/// Options only select what is read; the audio is the same.
pub fn c23_options() {
    let m = choose(3); let mut v = metadata(m); let f = frame(&mut v, true, 0, pick(&[0u64, 9]), 4, 8, [2, 1]); let w = pcm(&[f]);
    match FlacReader::new_ext(Cursor::new(v), FlacReaderOptions { metadata_only: false, read_vorbis_comment: choose(2) == 1 }) { Ok(r) => expect(r, &w, choose(3)), _ => check(false, "a well-formed stream is opened") } reach("options");
}
/// The same, wherever the comment block stands among other blocks.
pub fn c23_layout() {
    let mut v = b"fLaC".to_vec(); let others = choose(if thorough() { 4 } else { 3 }); let place = choose(others + 2); // others + 1: no comment block
    let blocks = others + (place <= others) as u32; let si = streaminfo(16, 16, 2, 8, 0); meta_block(&mut v, blocks == 0, 0, &si);
    let mut k = 0; let x = byte(); assume(x < 0x80);
    for i in 0..=others {
        if place == i { k += 1; let mut b = Vec::new(); le32(&mut b, 1); b.push(x); le32(&mut b, 1); le32(&mut b, 3); b.extend_from_slice(&[b'a', b'=', x]); meta_block(&mut v, k == blocks, 4, &b) }
        if i < others { k += 1; let (ty, n) = pick(&[(1u8, 0u32), (1, 6), (2, 4), (2, 9), (3, 18), (5, 3), (6, 5), (7, 4), (126, 1)]); let d = sym_vec(n as usize); meta_block(&mut v, k == blocks, ty, &d) }
    }
    let f = frame(&mut v, true, 0, pick(&[0u64, 9]), 4, 8, [2, 1]); let w = pcm(&[f]); let read = choose(2) == 1;
    match FlacReader::new_ext(Cursor::new(v), FlacReaderOptions { metadata_only: false, read_vorbis_comment: read }) { Ok(r) => {
            let i = r.streaminfo(); check(i.channels == 2 && i.bits_per_sample == 8 && i.max_block_size == 16, "the stream information does not depend on the other blocks");
            let mut n = 0; for (a, b) in r.tags() { n += 1; check(a.len() == 1 && b.len() == 1 && a.as_bytes()[0] == b'a' && b.as_bytes()[0] == x, "the tag of the stream") }
            if read { check(n == (place <= others) as u32, "the tags are found wherever their block stands") }
            expect(r, &w, choose(3)) }
        _ => check(false, "a well-formed stream is opened") } reach("layout");
}
/// Metadata larger than any internal buffer, handed out in pieces of many sizes.
pub fn c23_meta() {
    let mut v = b"fLaC".to_vec(); let si = streaminfo(16, 16, 2, 8, 0); meta_block(&mut v, false, 0, &si); let x = byte(); assume(x < 0x80 && x != 0);
    let long = pick(&[100usize, 1900, 2020, 3000, 5000]); let which = choose(3);
    let (vl, nl, tl) = match which { 0 => (long, 3, 4), 1 => (3, long, 4), _ => (3, 4, long) };
    let mut b = Vec::new(); le32(&mut b, vl as u32); for i in 0..vl { b.push(if i + 1 == vl { x } else { b'a' + (i % 26) as u8 }) }
    le32(&mut b, 2); for k in 0..2 { le32(&mut b, (nl + 1 + tl) as u32); for i in 0..nl { b.push(b'A' + ((i + k) % 26) as u8) } b.push(b'='); for i in 0..tl { b.push(if i + 1 == tl { x } else { b'0' + ((i + k) % 10) as u8 }) } }
    let first = choose(2) == 1; let pad = vec![0u8; 4100]; if first { meta_block(&mut v, false, 1, &pad) } meta_block(&mut v, first, 4, &b); if !first { meta_block(&mut v, true, 1, &pad) }
    let f = frame(&mut v, true, 0, 9, 4, 8, [2, 1]); let w = pcm(&[f]); let len = v.len(); let p = pick(&[1usize, 3, 511, 512, 1023, 1024, 2047, 2048, 2049, 3000, 4095, 4096, 100000]);
    match FlacReader::new(Pieces::new(v, vec![p; len / p + 1])) { Ok(r) => {
            let s = r.vendor().unwrap_or("").as_bytes(); check(s.len() == vl && s[vl - 1] == x && (vl < 2 || s[vl - 2] == b'a' + ((vl - 2) % 26) as u8), "the vendor string");
            let mut k = 0; for (n, t) in r.tags() { check(n.len() == nl && t.len() == tl, "name and value in full"); let (n, t) = (n.as_bytes(), t.as_bytes()); let mut i = 0; while i < nl { check(n[i] == b'A' + ((i + k) % 26) as u8, "the name"); i += 1 } i = 0; while i + 1 < tl { check(t[i] == b'0' + ((i + k) % 10) as u8, "the value"); i += 1 } check(t[tl - 1] == x, "the value"); k += 1 }
            check(k == 2, "every tag"); expect(r, &w, 0) }
        _ => check(false, "a well-formed stream is opened") } reach("meta");
}
/// Two readers at work at the same time, buffers going from one to the other, one of them over a damaged stream: neither knows of the other.
pub fn c23_apart() {
    let shapes = [(10u64, 4u32, 16u32, [3u32, 1u32]), (0, 4, 24, [5, 5]), (0, 4, 12, [1, 0]), (9, 4, 8, [4, 2])]; let bad = choose(3); // a wrong checksum or a cut in the second stream's second frame
    let mut v = [metadata(choose(2)), metadata(choose(3))]; let mut w = [Vec::new(), Vec::new()];
    for j in 0..2 { for i in 0..2 { let (chan, n, bps, ms) = pick(if thorough() { &shapes[..] } else { &shapes[2 * j..2 * j + 2] }); w[j].push(frame(&mut v[j], false, i + 3 * j as u64, chan, n, bps, ms)) } }
    match bad { 0 => {} 1 => { let l = v[1].len(); v[1][l - 1] ^= 1 } _ => { let l = v[1].len(); v[1].truncate(l - 1 - choose(2) as usize) } }
    let [a, b] = v; let (ra, rb) = match (FlacReader::new(Cursor::new(a)), FlacReader::new(Cursor::new(b))) { (Ok(a), Ok(b)) => (a, b), _ => { check(false, "a well-formed stream is opened"); return } };
    let good = |j: usize, i: usize| j == 0 || i == 0 || bad == 0;
    match choose(2) { 0 => { let mut r = [ra, rb]; let mut buf = Vec::new(); let first = choose(2) as usize;
            for i in 0..3 { for k in 0..2 { let j = (first + k) % 2; if !good(j, 1) && i > 1 { continue }
                match r[j].blocks().read_next_or_eof(buf) { Ok(Some(x)) => { check(i < 2 && good(j, i), "no more blocks than there are"); if i > 1 { return } crate::frames::same(&x, &w[j][i]); check(x.time() == 16 * (i as u64 + 3 * j as u64), "the time of the block"); buf = x.into_buffer() }
                    Ok(None) => { check(i == 2, "every block is decoded"); buf = Vec::new() } Err(_) => { check(!good(j, i), "a well-formed frame is decoded"); buf = Vec::new() } } } } }
        _ => { let (mut ia, mut ib) = (ra.into_samples(), rb.into_samples()); let pa = pcm(&w[0]); let pb = pcm(&w[1][..if bad == 0 { 2 } else { 1 }]); let n = pa.len().max(pb.len()) + 1;
            for i in 0..n { match ia.next() { Some(Ok(s)) => check(i < pa.len() && s as i64 == pa[i], "the sample that was encoded"), Some(Err(_)) => check(false, "a well-formed frame is decoded"), None => check(i >= pa.len(), "every sample comes back") }
                match ib.next() { Some(Ok(s)) => check(i < pb.len() && s as i64 == pb[i], "the sample that was encoded"), Some(Err(_)) => check(bad > 0 && i == pb.len(), "a well-formed frame is decoded"), None => check(i >= pb.len() + (bad > 0) as usize, "every sample comes back") } } } }
    reach("apart");
}
