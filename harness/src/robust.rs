//! C01: no input makes the decoder panic, overflow, or touch memory it must not.
use crate::sym::*;
use crate::util::*;
use claxon::frame::FrameReader;
use claxon::input::{BufferedReader, ReadBytes};
use std::io::{self, Cursor};

fn tell(c: u32) { match c { OK => reach("ok"), EOF => reach("eof"), IO => reach("io"), FMT => reach("fmt"), _ => reach("uns") } }

/// Arbitrary bytes as one subframe, every small block size, selected sample widths; compared with the reference decoder.
pub fn c01_subframe() {
    let n = pick(&[1usize, 2, 3, 4]); let bps = pick(&[1u32, 4, 17, 25, 32]); let off = pick(&[0u32, 3]);
    let d = sym_vec(if thorough() { 5 } else { 3 });
    tell(compare_subframe(&d, off, bps, n));
}
/// Arbitrary bytes behind a valid frame header, then another attempt on the rest.
pub fn c01_frame() {
    let chan = pick(&[0u64, 1, 8, 9, 10]); let bps = pick(&[8u32, 24]); let bs = pick(&[1u32, 2, 4]);
    let mut v = frame_header(choose(2) == 1, bs, chan, bps, &[0]).out;
    let mut k = 0; let n = if thorough() { 5 } else { 3 }; while k < n { v.push(byte()); k += 1; }
    let mut r = FrameReader::new(Cursor::new(v));
    let a = r.read_next_or_eof(Vec::new()); tell(class(&a));
    if let Ok(Some(ref b)) = a { check(b.len() == b.duration() * b.channels(), "the block is as large as its shape"); check_init(b.channel(0)); }
    let b = r.read_next_or_eof(Vec::new()); observe(class(&b) as u64);
}
/// Arbitrary bytes where a frame should start.
pub fn c01_header() {
    let synced = choose(2) == 0; let n = if synced { 6 } else { 4 } + if thorough() { 2 } else { 0 }; let mut v = sym_vec(n);
    if synced { v[0] = 0xff; v[1] = 0xf8 | (v[1] & 1); }
    let mut r = FrameReader::new(BufferedReader::new(Cursor::new(v)));
    let a = r.read_next_or_eof(Vec::new()); tell(class(&a)); observe(class(&a) as u64);
    let b = r.read_next_or_eof(Vec::new()); observe(class(&b) as u64);
}
/// Arbitrary bytes where metadata should start, through the iterator and the direct functions.
pub fn c01_meta() {
    let n = if thorough() { 14 } else { 11 }; let d = sym_vec(n);
    match choose(3) {
        0 => { let mut it = claxon::metadata::MetadataBlockReader::new(Cursor::new(d)); let mut k = 0;
            while let Some(b) = it.next() { let c = class(&b); tell(c); observe(c as u64); k += 1; if k > 4 { break; } if let Ok(claxon::metadata::MetadataBlock::Application { ref data, .. }) = b { check_init(&data[..]); } } }
        1 => { let r = claxon::metadata::read_metadata_block_with_header(&mut Cursor::new(d)); tell(class(&r)); observe(class(&r) as u64); }
        _ => { let ty = byte(); let len = bits(32) as u32; let r = claxon::metadata::read_metadata_block(&mut Cursor::new(d), ty, len); tell(class(&r)); observe(class(&r) as u64); }
    }
}
/// Arbitrary bytes behind the stream marker, opened and read to the end.
pub fn c01_stream() {
    let mut v = b"fLaC".to_vec(); let n = pick(&[0usize, 2, 4]);
    match choose(3) {
        0 => { for _ in 0..n { v.push(byte()); } }
        1 => { let si = streaminfo(16, 16, 1, 8, 0); meta_block(&mut v, false, 0, &si); for _ in 0..n + 3 { v.push(byte()); } }
        _ => { let si = streaminfo(16, 16, 1, 8, 0); meta_block(&mut v, true, 0, &si); for _ in 0..n + 1 { v.push(byte()); } }
    }
    let o = claxon::FlacReaderOptions { metadata_only: choose(2) == 1, read_vorbis_comment: choose(2) == 1 };
    match claxon::FlacReader::new_ext(Cursor::new(v), o) {
        Err(e) => { tell(err_class(&e)); }
        Ok(mut r) => { reach("ok"); let _ = r.streaminfo(); for t in r.tags() { observe(t.0.len() as u64) } let _ = r.get_tag("A").count();
            if !o.metadata_only { let mut k = 0; for s in r.samples() { k += 1; if s.is_err() { reach("bad sample"); } if k > 20 { break; } } } }
    }
}
/// The linear predictor with everything free: no intermediate value overflows.
pub fn c01_lpc() {
    let order = if thorough() { 1 + choose(32) } else { pick(&[1u32, 4, 11, 12, 13, 31, 32]) }; let prec = pick(&[1u32, 15]); let bps = pick(&[8u32, 32]);
    let n = order as usize + 2; let mut w = BitW::new();
    sub_header(&mut w, T_LPC + order as u64 - 1, 0);
    for _ in 0..order { w.put(bits(bps), bps); }
    w.put(prec as u64 - 1, 4); let s = bits(4); w.put(conc(s), 5);
    for _ in 0..order { w.put(bits(prec), prec); }
    w.put(1, 2); w.put(0, 4); w.put(30, 5);
    for _ in 0..2 { w.unary(pick(&[0u32, 3])); w.put(bits(30), 30); }
    w.align();
    let mut bs = claxon::input::Bitstream::new(Src::new(w.out)); let mut b = vec![0i32; n];
    check(claxon::subframe::decode(&mut bs, bps, &mut b).is_ok(), "a complete predicted subframe is decoded"); reach("ok");
}
/// The fixed predictor with everything free, with wasted bits.
pub fn c01_fixed() {
    let order = choose(5); let bps = pick(&[8u32, 25, 32]); let wasted = pick(&[0u32, 1, 7]); let sb = bps - wasted;
    let n = order as usize + 3; let mut w = BitW::new();
    sub_header(&mut w, T_FIXED + order as u64, wasted);
    for _ in 0..order { w.put(bits(sb), sb); }
    w.put(1, 2); w.put(0, 4); w.put(30, 5);
    for _ in 0..3 { w.unary(pick(&[0u32, 1, 3])); w.put(bits(30), 30); }
    w.align();
    let mut bs = claxon::input::Bitstream::new(Src::new(w.out)); let mut b = vec![0i32; n];
    check(claxon::subframe::decode(&mut bs, bps, &mut b).is_ok(), "a complete predicted subframe is decoded"); reach("ok");
}
/// Stereo decorrelation of arbitrary values never overflows.
pub fn c01_stereo() {
    let chan = 8 + choose(3) as u64; let bps = pick(&[8u32, 24]); let n = if thorough() { 9u32 } else { 4 };
    let mut w = frame_header(false, n, chan, bps, &[0]);
    for ch in 0..2u64 {
        let sb = bps + (((chan == 8 || chan == 10) && ch == 1) || (chan == 9 && ch == 0)) as u32;
        // a predicted channel can leave the nominal sample width
        if choose(2) == 0 { sub_header(&mut w, T_VERB, 0); for _ in 0..n { w.put(bits(sb), sb); } }
        else { sub_header(&mut w, T_FIXED, 0); w.put(1, 2); w.put(0, 4); w.put(30, 5); for i in 0..n { w.unary(if i < 2 { choose(4) } else { 3 }); w.put(bits(30), 30); } }
    }
    let r = FrameReader::new(Cursor::new(frame_end(w))).read_next_or_eof(Vec::new());
    check(class(&r) == OK, "a complete frame is decoded"); reach("ok");
}
/// A reader that looks at the buffer it is handed, or claims success without filling it.
pub fn c01_reader() {
    struct Odd { data: Vec<u8>, pos: usize, look: bool }
    impl ReadBytes for Odd {
        fn read_u8(&mut self) -> io::Result<u8> { if self.pos < self.data.len() { self.pos += 1; Ok(self.data[self.pos - 1]) } else { Err(eof()) } }
        fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> { if self.pos < self.data.len() { self.read_u8().map(Some) } else { Ok(None) } }
        fn read_into(&mut self, b: &mut [u8]) -> io::Result<()> { if self.look { check_init(b); } self.pos += b.len(); if self.pos > self.data.len() { self.pos = self.data.len(); } Ok(()) }
        fn skip(&mut self, _: u32) -> io::Result<()> { Ok(()) }
    }
    let mut v = Vec::new(); let n = 9 + choose(5) as usize; let look = choose(2) == 0;
    let ty = pick(&[2u8, 4]);
    if ty == 4 { let vl = choose(4); le32(&mut v, vl); for _ in 0..vl { v.push(0); } le32(&mut v, 1); le32(&mut v, 1 + choose(2)); } else { v.extend_from_slice(&[1, 2, 3, 4]); }
    let r = claxon::metadata::read_metadata_block(&mut Odd { data: v, pos: 0, look }, ty, n as u32);
    match r { Ok(claxon::metadata::MetadataBlock::Application { data, .. }) => { reach("application"); check(data.len() == n - 4, "the payload has the announced length"); check_init(&data[..]); } Ok(_) => reach("other"), Err(e) => { reach("err"); observe(err_class(&e) as u64) } }
}
