//! C04 frame headers, C05 frame and sample numbers, C06 checksums, C12 frame assembly.
use crate::sym::*;
use crate::util::*;
use claxon::frame::FrameReader;
use claxon::input::BufferedReader;
use std::io::Cursor;

fn nominal(code: u32) -> u32 { match code { 1 => 192, 2..=5 => 576 << (code - 2), 8..=15 => 256 << (code - 8), _ => 0 } }
fn bps_of(code: u32) -> u32 { match code { 1 => 8, 2 => 12, 4 => 16, 5 => 20, 6 => 24, _ => 0 } }
pub fn chan_count(code: u64) -> usize { if code < 8 { code as usize + 1 } else { 2 } }
/// Sample width of channel `ch` under the given channel assignment.
pub fn chan_bps(chan: u64, ch: usize, bps: u32) -> u32 { bps + ((chan == 8 && ch == 1) || (chan == 9 && ch == 0) || (chan == 10 && ch == 1)) as u32 }

/// Header bytes from the raw code fields, without the CRC-8.
fn raw_header(b0: u8, b1: u8, bs_sr: u8, cb: u8, num: &[u8], bs_extra: &[u8], sr_extra: &[u8]) -> Vec<u8> {
    let mut v = vec![b0, b1, bs_sr, cb];
    v.extend_from_slice(num); v.extend_from_slice(bs_extra); v.extend_from_slice(sr_extra); v
}

/// The first two bytes: accepted exactly when sync code and reserved bit are right.
pub fn c04_sync() {
    let (b0, b1) = (byte(), byte());
    let mut v = raw_header(b0, b1, 0x69, 0x02, &[0], &[1], &[]);
    let c = crc8(&v); v.push(c);
    let good = b0 == 0xff && b1 & 0xfe == 0xf8;
    let r = FrameReader::new(Cursor::new(v)).read_next_or_eof(Vec::new()); let c = class(&r);
    if good { reach("good"); check(c == EOF, "a frame with the sync code is entered") } else { reach("bad"); check(c == FMT, "anything but the sync code is refused") }
}
/// All values of the two code bytes: the header is refused exactly when a reserved value occurs.
pub fn c04_codes() {
    let bs = byte(); let cb = byte(); let var = choose(2) as u8;
    // enough bytes for every combination of trailing fields; the CRC-8 sits where the codes put it
    let bsx = match bs >> 4 { 6 => 1, 7 => 2, _ => 0 }; let srx = match bs & 15 { 12 => 1, 13 | 14 => 2, _ => 0 };
    let mut v = raw_header(0xff, 0xf8 | var, bs, cb, &[0x05], &[], &[]);
    for i in 0..bsx + srx { v.push(if i == 0 && bsx > 0 { byte() & 0x7f } else { byte() }); }
    let c = crc8(&v); v.push(c); let end = choose(2) == 1; if !end { v.push(0x80); v.push(0) }
    let bad = bs >> 4 == 0 || bs & 15 == 15 || cb >> 4 > 10 || (cb >> 1) & 7 == 3 || (cb >> 1) & 7 == 7 || cb & 1 == 1;
    let nobps = (cb >> 1) & 7 == 0;
    let r = FrameReader::new(Cursor::new(v)).read_next_or_eof(Vec::new()); let c = class(&r);
    if bad { reach("reserved"); check(c == FMT || (nobps && c == UNS), "reserved values in the header are refused") }
    else if nobps { reach("no width"); check(c == UNS, "a header without sample width is unsupported") }
    else { reach("legal"); check(c == if end { EOF } else { FMT }, "a legal header is accepted and the subframe follows it") }
}
fn decode_const(v: Vec<u8>, n: u32, chan: u64, vals: &[i64]) {
    let mut r = FrameReader::new(Cursor::new(v));
    match r.read_next_or_eof(Vec::new()) {
        Ok(Some(b)) => {
            check(b.duration() == n, "the block has the size the header states");
            check(b.channels() as usize == chan_count(chan), "the block has the channels the header states");
            check(b.len() == n * chan_count(chan) as u32, "the block is as large as its shape");
            for ch in 0..chan_count(chan) {
                let c = b.channel(ch as u32); check(c.len() == n as usize, "a channel is as long as the block");
                for i in [0usize, n as usize / 2, n as usize - 1] { check(c[i] as i64 == vals[ch], "constant channels decode to their value"); }
            }
            reach("decoded");
        }
        _ => check(false, "a complete legal frame is decoded"),
    }
    check(r.into_inner().position() > 0, "position");
}
/// The block size by its code, including the explicitly stored sizes.
pub fn c04_blocksize() {
    let code = 1 + choose(15); let mut extra = Vec::new();
    let n = match code {
        6 => { let x = conc(bits(8)) as u32; extra.push(x as u8); x + 1 }
        7 => { let x = if thorough() && choose(2) == 0 { (choose(160) * 409 + 3) & 0xffff } else { pick(&[0u32, 1, 0xfe, 0xff, 0x100, 0x7ff, 0x0fff, 0x1000, 0x7fff, 0x8000, 0xbfff, 0xfffd, 0xfffe, 0xffff]) };
            extra.push((x >> 8) as u8); extra.push(x as u8); x + 1 }
        c => nominal(c),
    };
    let v = raw_header(0xff, 0xf8, (code << 4 | 9) as u8, 0x02, &[0], &extra, &[]);
    let mut w = BitW::new(); for &b in &v { w.put(b as u64, 8) } let c = crc8(&w.out); w.put(c as u64, 8);
    let x = sbits(8); put_const(&mut w, x, 8);
    let v = frame_end(w);
    if n > 65535 { reach("too large"); check(class(&FrameReader::new(Cursor::new(v)).read_next_or_eof(Vec::new())) == FMT, "a block of 65536 samples is refused"); return; }
    decode_const(v, n, 0, &[x]);
}
/// Channel assignment, sample width and sample rate codes in complete frames.
pub fn c04_fields() {
    let chan = choose(11) as u64; let bc = pick(&[1u32, 2, 4, 5, 6]); let bps = bps_of(bc); let two = choose(2) == 1; let var = choose(2) as u8;
    let sr = if chan == 0 || chan == 10 { choose(15) } else { 9 };
    let mut bsx = vec![]; if two { bsx.push(0) } bsx.push(4);
    let mut srx = vec![]; for _ in 0..(match sr { 12 => 1, 13 | 14 => 2, _ => 0 }) { srx.push(byte()) }
    let v = raw_header(0xff, 0xf8 | var, ((if two { 7 } else { 6 }) << 4 | sr) as u8, (chan << 4) as u8 | (bc << 1) as u8, &[0], &bsx, &srx);
    let mut w = BitW::new(); for &b in &v { w.put(b as u64, 8) } let c = crc8(&w.out); w.put(c as u64, 8);
    let mut vals = Vec::new();
    for ch in 0..chan_count(chan) {
        let sb = chan_bps(chan, ch, bps);
        // keep to values whose reconstruction is the coded value itself: the side channel is zero
        let x = if sb > bps { 0 } else { sbits(bps) }; put_const(&mut w, x, sb); vals.push(x);
    }
    if chan == 8 || chan == 10 { vals[1] = vals[0]; } if chan == 9 { vals[0] = vals[1]; }
    decode_const(frame_end(w), 5, chan, &vals);
}

/// A coded number of `len` bytes with free value bits, and that value.
fn coded_sym(len: usize) -> (Vec<u8>, u64) {
    if len == 1 { let x = bits(7); return (vec![x as u8], x); }
    let hi = if len == 7 { 0 } else { bits(7 - len as u32) };
    let mut v = vec![(0xff00u32 >> len) as u8 | hi as u8]; let mut x = hi;
    for _ in 1..len { let c = bits(6); v.push(0x80 | c as u8); x = x << 6 | c; }
    (v, x)
}
/// Every coded number of every length: value, limit for frame numbers, start of the block.
pub fn c05_number() {
    let len = 1 + choose(7) as usize; let var = choose(2) == 1; let bs = pick(&[1u32, 16, 192, 257]); let (num, x) = coded_sym(len);
    let mut w = frame_header(var, bs, 0, 8, &num); put_const(&mut w, 3, 8);
    let r = FrameReader::new(Cursor::new(frame_end(w))).read_next_or_eof(Vec::new());
    if !var && x > 0x7fff_ffff { reach("too large"); check(class(&r) == FMT, "a frame number beyond 31 bits is refused"); return; }
    match r {
        Ok(Some(b)) => { if var { reach("sample"); check(b.time() == x, "a block of variable size starts at its sample number") } else { reach("frame"); check(b.time() == x * bs as u64, "a block of fixed size starts at frame number times size") } }
        _ => check(false, "a well-formed number is accepted"),
    }
}
/// Malformed first and continuation bytes.
pub fn c05_malformed() {
    let var = choose(2) == 1; let mut num;
    if choose(2) == 0 { let f = byte(); assume(f & 0xc0 == 0x80 || f == 0xff); num = vec![f]; for _ in 0..7 { num.push(0x80 | bits(6) as u8) } if choose(2) == 0 { num.truncate(1) } reach("first"); }
    else {
        let len = 2 + choose(6) as usize; num = coded_sym(len).0; let i = 1 + choose(len as u32 - 1) as usize;
        let c = byte(); assume(c & 0xc0 != 0x80); num[i] = c; reach("continuation");
    }
    let mut w = frame_header(var, 4, 0, 8, &num); put_const(&mut w, 3, 8);
    let r = FrameReader::new(Cursor::new(frame_end(w))).read_next_or_eof(Vec::new());
    check(class(&r) == FMT, "a malformed number is refused");
}
/// Through the stream interface: the declared fixed block size places every block, also a short last one.
pub fn c05_stream() {
    let d = pick(&[16u32, 192, 4096, 65535]); let var = choose(2) == 1; let bs = pick(&[1u32, 15, 16]); let len = 1 + choose(7) as usize; let (num, x) = coded_sym(len);
    if !var { assume(x <= 0x7fff_ffff); }
    let same = choose(2) == 0;
    let mut v = stream_start(if same { d } else { 16 }, if same { d } else { 65535 }, 1, 8);
    if !same && !var { assume(x == 0); }
    let mut w = frame_header(var, bs, 0, 8, &num); put_const(&mut w, 3, 8); v.extend_from_slice(&frame_end(w));
    let mut r = claxon::FlacReader::new(Cursor::new(v)).unwrap();
    let b = match r.blocks().read_next_or_eof(Vec::new()) { Ok(Some(b)) => b, _ => { check(false, "a well-formed frame is decoded"); return } };
    check(b.duration() == bs, "the block has its own size");
    if var { reach("sample"); check(b.time() == x, "a block of variable size starts at its sample number") }
    else if same { reach("frame"); check(b.time() == x * d as u64, "a block starts at its number times the block size of the stream") }
    else { reach("first"); check(b.time() == 0, "the first block starts at zero") }
}

/// The header checksum: accepted exactly when it is the CRC-8 of the header bytes.
pub fn c06_header() {
    let len = 1 + choose(7) as usize; let var = choose(2) == 1; let (num, x) = coded_sym(len); if !var { assume(x <= 0x7fff_ffff); }
    let two = choose(2) == 1; let sr = pick(&[9u8, 12, 13, 14, 0]);
    let mut bsx = vec![]; if two { bsx.push(0) } bsx.push(bits(3) as u8);
    let mut srx = vec![]; for _ in 0..(match sr { 12 => 1, 13 | 14 => 2, _ => 0 }) { srx.push(byte()) }
    let mut v = raw_header(0xff, 0xf8 | var as u8, (if two { 0x70 } else { 0x60 }) | sr, 0x02, &num, &bsx, &srx);
    let c = byte(); let good = c == crc8(&v); v.push(c);
    let k = class(&FrameReader::new(Cursor::new(v)).read_next_or_eof(Vec::new()));
    if good { reach("match"); check(k == EOF, "a header with the right checksum is accepted") } else { reach("mismatch"); check(k == FMT, "a header with a wrong checksum is refused") }
}
fn payload_frame(shape: u32) -> BitW {
    match shape {
        0 => { let mut w = frame_header(false, 1, 0, 8, &[0]); put_const(&mut w, sbits(8), 8); w }
        1 => { let mut w = frame_header(true, 5, 1, 16, &coded(70000)); for _ in 0..2 { let mut x = [0i64; 5]; for y in x.iter_mut() { *y = sbits(16) } put_verbatim(&mut w, &x, 16) } w }
        2 => { let mut w = frame_header(false, 3, 0, 12, &coded_sym(2).0); sub_header(&mut w, T_VERB, 3); for _ in 0..3 { w.put(bits(9), 9) } w }
        3 => { let mut w = frame_header(false, 4, 10, 24, &coded_sym(6).0); for ch in 0..2 { sub_header(&mut w, T_FIXED, 0); w.put(1, 2); w.put(1, 4); for _ in 0..2 { w.put(13 + ch, 5); for _ in 0..2 { w.unary(2); w.put(bits(13 + ch as u32), 13 + ch as u32) } } } w }
        _ => { let n = if thorough() { 150 } else { 80 }; let mut w = frame_header(false, n, 0, 24, &[7]); sub_header(&mut w, T_VERB, 0); for _ in 0..n { w.put(bits(24), 24) } w }
    }
}
/// The frame checksum: accepted exactly when it is the CRC-16 of everything before it.
pub fn c06_frame() {
    let mut w = payload_frame(choose(5)); if choose(2) == 0 { let n = 8 - w.bit_len() as u32 % 8; if n < 8 { w.put(bits(n), n) } } w.align();
    let want = crc16(&w.out); let c = bits(16); let good = c == want as u64; w.put(c, 16); let buffered = choose(2) == 1;
    let end = w.out.len() as u64;
    let v = w.out;
    let k = if buffered { class(&FrameReader::new(BufferedReader::new(Cursor::new(v))).read_next_or_eof(Vec::new())) } else {
        let mut r = FrameReader::new(Cursor::new(v)); let k = class(&r.read_next_or_eof(Vec::new())); check(r.into_inner().position() == end, "the checksum is the last thing read"); k };
    if good { reach("match"); check(k == OK, "a frame with the right checksum is accepted") } else { reach("mismatch"); check(k == FMT, "a frame with a wrong checksum is refused") }
}
/// A burst of up to 16 wrong bits anywhere in the coded samples or the checksum never goes unnoticed.
pub fn c06_burst() {
    let shape = pick(&[0u32, 1, 4]); let mut v = frame_end(payload_frame(shape)); let n = v.len();
    // runs of bytes that hold only sample bits (or the checksum)
    let (from, to) = match shape { 0 => (8usize, n), 1 => if choose(2) == 0 { (11, 21) } else { (22, n) }, _ => { let k = pick(&[8usize, 41, 200]); if k == 200 { (n - 6, n) } else { (k, k + 5) } } };
    let e = bits(16); assume(e != 0); let at = from + choose((to - from - 2) as u32) as usize; let s = choose(9); let e = e << s;
    v[at] ^= (e >> 16) as u8; v[at + 1] ^= (e >> 8) as u8; v[at + 2] ^= e as u8;
    let k = class(&FrameReader::new(Cursor::new(v)).read_next_or_eof(Vec::new())); reach("burst");
    check(k == FMT, "a corrupted frame is never accepted");
}
/// Every frame is checked on its own: what came before has no influence.
pub fn c06_second() {
    let mut v = frame_end(payload_frame(0)); v.extend_from_slice(&frame_end(payload_frame(2)));
    let mut w = payload_frame(0); w.align(); let want = crc16(&w.out); let c = bits(16); let good = c == want as u64; w.put(c, 16); v.extend_from_slice(&w.out);
    let mut r = FrameReader::new(Cursor::new(v));
    for _ in 0..2 { check(class(&r.read_next_or_eof(Vec::new())) == OK, "a frame with the right checksum is accepted"); }
    let k = class(&r.read_next_or_eof(Vec::new()));
    if good { reach("match"); check(k == OK, "a later frame with the right checksum is accepted") } else { reach("mismatch"); check(k == FMT, "a later frame with a wrong checksum is refused") }
}

/// The same for frames of hundreds of thousands of bytes.
pub fn c06_long() {
    let (chan, n) = pick(&[(0u64, 4096u32), (0, 32768), (0, 65523), (0, 65524), (0, 65525), (0, 65526), (0, 65535), (1, 32760), (1, 65535), (7, 16384), (7, 65535)]); if n as u64 * (chan + 1) > 200_000 && !thorough() && chan == 7 && n == 65535 { return }
    let mut w = frame_header(false, n, chan, 8, &[3]);
    for ch in 0..chan as usize + 1 { sub_header(&mut w, T_VERB, 0); let mut i = 0; while i < n as usize { w.out.push(((i * 37 + ch * 5) >> 3) as u8 ^ i as u8); i += 1 } }
    let at = w.out.len() - 1; w.out[at] = byte(); let want = crc16(&w.out); let c = bits(16); w.put(c, 16); let v = w.out; let end = v.len() as u64;
    let mut r = FrameReader::new(Cursor::new(v)); let k = class(&r.read_next_or_eof(Vec::new()));
    if c == want as u64 { reach("match"); check(k == OK, "a long frame with the right checksum is accepted"); check(r.into_inner().position() == end, "the whole frame is used") } else { reach("mismatch"); check(k == FMT, "a long frame with a wrong checksum is refused") }
}

/// A frame of verbatim channels with free samples; the samples per channel as coded.
pub fn verb_frame(chan: u64, n: u32, bps: u32, num: u64) -> (BitW, Vec<Vec<i64>>) {
    let mut w = frame_header(false, n, chan, bps, &coded(num)); let mut all = Vec::new();
    for ch in 0..chan_count(chan) {
        let sb = chan_bps(chan, ch, bps); let mut xs = Vec::new(); for _ in 0..n { xs.push(sbits(sb)) }
        put_verbatim(&mut w, &xs, sb); all.push(xs);
    }
    (w, all)
}
pub fn same(b: &claxon::Block, want: &[Vec<i64>]) {
    check(b.channels() as usize == want.len(), "all channels are present");
    for (ch, xs) in want.iter().enumerate() { let c = b.channel(ch as u32); check(c.len() == xs.len(), "a channel is as long as the block"); for i in 0..xs.len() { check(c[i] as i64 == xs[i], "every channel holds its own samples in order"); } }
}
/// Channels are decoded in order, each into its own place; padding bits do not matter.
pub fn c12_layout() {
    let chan = choose(8) as u64; let bps = pick(&[8u32, 12, 16, 20, 24]); let n = pick(&[1u32, 2, 3, 7]);
    let (mut w, want) = verb_frame(chan, n, bps, 0); let left = w.bit_len() as u32 % 8; if left > 0 { w.put(bits(8 - left), 8 - left); reach("padded"); }
    let mut v = frame_end(w); let end = v.len() as u64; v.push(byte()); v.push(byte());
    let mut r = FrameReader::new(Cursor::new(v));
    match r.read_next_or_eof(Vec::new()) { Ok(Some(b)) => { same(&b, &want); check(b.len() as usize == b.channels() as usize * n as usize, "len"); check_init(b.channel(0)); } _ => check(false, "a complete frame is decoded") }
    check(r.into_inner().position() == end, "exactly the frame is consumed"); reach("layout");
}
/// A recycled buffer, whatever its length, capacity and contents, never shows in the result.
pub fn c12_buffer() {
    let n = pick(&[1u32, 3, 4]); let chan = choose(2) as u64; let total = (chan as usize + 1) * n as usize;
    let len = choose(total as u32 + 3) as usize; let cap = pick(&[0usize, 1, 8, 20]);
    let mut buf: Vec<i32> = Vec::with_capacity(cap); for _ in 0..len { buf.push(bits(32) as i32) }
    let mut w = frame_header(false, n, chan, 8, &[0]); let mut want = Vec::new();
    for ch in 0..chan + 1 {
        if choose(2) == 0 { let x = sbits(8); put_const(&mut w, x, 8); let mut xs = Vec::new(); for _ in 0..n { xs.push(x) } want.push(xs); }
        else { let o = if n >= 2 { choose(2) } else { 0 } as i64; sub_header(&mut w, T_FIXED + o as u64, 0); let mut xs = Vec::new(); if o == 1 { let x = sbits(8); put_s(&mut w, x, 8); xs.push(x); }
            w.put(0, 2); w.put(0, 4); w.put(4, 4); while xs.len() < n as usize { let r = rice_sym(1, 4, ch == 1); r.put(&mut w, 4); let p = if o == 1 { xs[xs.len() - 1] } else { 0 }; xs.push(p + r.value(4)) } want.push(xs) }
    }
    match FrameReader::new(Cursor::new(frame_end(w))).read_next_or_eof(buf) {
        Ok(Some(b)) => { same(&b, &want); let buf = b.into_buffer(); check(buf.len() >= total, "the buffer holds the whole block"); check_init(&buf[..total]); reach("buffer"); }
        _ => check(false, "a complete frame is decoded"),
    }
}
/// Consecutive frames of different shape through one recycled buffer, then the clean end.
pub fn c12_sequence() {
    let mut v = Vec::new(); let mut wants = Vec::new(); let k = if thorough() { 4 } else { 3 };
    for i in 0..k { let (w, want) = verb_frame(pick(&[0u64, 1, 3]), pick(&[1u32, 4]), pick(&[8u32, 24]), i); v.extend_from_slice(&frame_end(w)); wants.push(want) }
    let mut r = FrameReader::new(Cursor::new(v)); let mut buf = Vec::new(); let recycle = choose(2) == 0;
    for w in &wants { match r.read_next_or_eof(buf) { Ok(Some(b)) => { same(&b, w); buf = if recycle { b.into_buffer() } else { Vec::new() } } _ => { check(false, "a complete frame is decoded"); return } } }
    check(match r.read_next_or_eof(buf) { Ok(None) => true, _ => false }, "behind the last frame is the clean end"); reach("sequence");
}

/// Long blocks of up to eight channels, through a recycled buffer.
pub fn c12_long() {
    let chan = choose(8) as u64; let n = pick(&[4096u32, 4608, 5000, 16384, 65535]); if n > 5000 && !thorough() && (chan + n as u64) % 3 == 0 { return }
    let total = (chan as usize + 1) * n as usize; let old = pick(&[0usize, 1, 2]); let mut buf: Vec<i32> = Vec::new(); if old == 1 { buf.resize(total - 1, 0x5a5a) } else if old == 2 { buf.resize(total + 5, -7) }
    let mut w = frame_header(false, n, chan, 16, &[0]); let mut xs = Vec::new(); for _ in 0..chan + 1 { let x = sbits(16); put_const(&mut w, x, 16); xs.push(x) }
    let mut r = FrameReader::new(Cursor::new(frame_end(w)));
    match r.read_next_or_eof(buf) {
        Ok(Some(b)) => { check(b.channels() as usize == xs.len() && b.duration() == n && b.len() as usize == total, "all channels are present");
            for (ch, &x) in xs.iter().enumerate() { let c = b.channel(ch as u32); check(c.len() == n as usize, "a channel is as long as the block"); let mut i = 0; while i < n as usize { check(c[i] as i64 == x, "every channel holds its own samples"); i += 1 } }
            check(b.into_buffer().len() >= total, "the buffer holds the whole block") }
        _ => check(false, "a complete frame is decoded"),
    }
    reach("long");
}
