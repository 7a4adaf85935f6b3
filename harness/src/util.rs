//! Independent reference helpers shared by the harnesses.
#![allow(dead_code)]
use claxon::input::ReadBytes;
use std::io;

pub fn eof() -> io::Error { io::Error::from(io::ErrorKind::UnexpectedEof) }

/// A byte source over owned data, implementing claxon's reader trait directly.
pub struct Src { pub data: Vec<u8>, pub pos: usize }
impl Src { pub fn new(data: Vec<u8>) -> Src { Src { data, pos: 0 } } }
impl ReadBytes for Src {
    fn read_u8(&mut self) -> io::Result<u8> { if self.pos < self.data.len() { let b = self.data[self.pos]; self.pos += 1; Ok(b) } else { Err(eof()) } }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> { if self.pos < self.data.len() { let b = self.data[self.pos]; self.pos += 1; Ok(Some(b)) } else { Ok(None) } }
    fn read_into(&mut self, b: &mut [u8]) -> io::Result<()> {
        if b.len() <= self.data.len() - self.pos { b.copy_from_slice(&self.data[self.pos..self.pos + b.len()]); self.pos += b.len(); Ok(()) } else { Err(eof()) }
    }
    fn skip(&mut self, n: u32) -> io::Result<()> { if n as usize <= self.data.len() - self.pos { self.pos += n as usize; Ok(()) } else { Err(eof()) } }
}

/// `n` bits of `d` starting at bit `pos`, most significant bit first.
pub fn bits_at(d: &[u8], pos: usize, n: u32) -> u64 {
    let mut r = 0u64;
    let mut p = pos; let mut left = n;
    while left > 0 {
        let off = (p & 7) as u32; let take = if 8 - off < left { 8 - off } else { left };
        let chunk = (d[p >> 3] as u64 >> (8 - off - take)) & ((1u64 << take) - 1);
        r = (r << take) | chunk; p += take as usize; left -= take;
    }
    r
}

/// Writes bit fields, most significant bit first.
pub struct BitW { pub out: Vec<u8>, acc: u64, n: u32 }
impl BitW {
    pub fn new() -> BitW { BitW { out: Vec::with_capacity(4096), acc: 0, n: 0 } }
    pub fn put(&mut self, v: u64, bits: u32) {
        let mut left = bits;
        while left > 0 {
            let take = if 8 - self.n < left { 8 - self.n } else { left };
            self.acc = (self.acc << take) | ((v >> (left - take)) & ((1u64 << take) - 1));
            self.n += take; left -= take;
            if self.n == 8 { self.out.push(self.acc as u8); self.acc = 0; self.n = 0; }
        }
    }
    pub fn unary(&mut self, zeros: u32) {
        let mut left = zeros;
        if self.n > 0 { let k = if 8 - self.n < left { 8 - self.n } else { left }; self.put(0, k); left -= k; }
        if left >= 8 { let at = self.out.len(); self.out.resize(at + left as usize / 8, 0); left &= 7; }
        self.put(0, left); self.put(1, 1);
    }
    pub fn aligned(&self) -> bool { self.n == 0 }
    pub fn align(&mut self) { if self.n > 0 { let k = 8 - self.n; self.put(0, k); } }
    pub fn bit_len(&self) -> usize { self.out.len() * 8 + self.n as usize }
}

/// Bit-serial CRC of a whole number of bytes (polynomial without the leading term).
pub fn crc(data: &[u8], poly: u32, width: u32) -> u32 {
    let mut st = 0u32; let top = 1u32 << (width - 1); let mask = ((1u64 << width) - 1) as u32;
    for &b in data {
        st ^= (b as u32) << (width - 8);
        for _ in 0..8 { let fb = 0u32.wrapping_sub(((st & top) != 0) as u32); st = ((st << 1) & mask) ^ (poly & fb); }
    }
    st
}
pub fn crc8(d: &[u8]) -> u8 { crc(d, 0x07, 8) as u8 }
pub fn crc16(d: &[u8]) -> u16 { crc(d, 0x8005, 16) as u16 }

pub fn sym_vec(n: usize) -> Vec<u8> { let mut v = vec![0u8; n]; crate::sym::fill(&mut v); v }

// ---------------------------------------------------------------- result classification
pub const OK: u32 = 0; pub const EOF: u32 = 1; pub const IO: u32 = 2; pub const FMT: u32 = 3; pub const UNS: u32 = 4;
pub fn io_class(e: &io::Error) -> u32 { if e.kind() == io::ErrorKind::UnexpectedEof { EOF } else { IO } }
pub fn err_class(e: &claxon::Error) -> u32 {
    match *e { claxon::Error::IoError(ref e) => io_class(e), claxon::Error::FormatError(_) => FMT, claxon::Error::Unsupported(_) => UNS }
}
pub fn class<T>(r: &claxon::Result<T>) -> u32 { match *r { Ok(_) => OK, Err(ref e) => err_class(e) } }

// ---------------------------------------------------------------- stream construction
pub const T_CONST: u64 = 0; pub const T_VERB: u64 = 1; pub const T_FIXED: u64 = 8; pub const T_LPC: u64 = 32;
pub fn sub_header(w: &mut BitW, ty: u64, wasted: u32) {
    w.put(0, 1); w.put(ty, 6);
    if wasted == 0 { w.put(0, 1) } else { w.put(1, 1); w.unary(wasted - 1) }
}
pub fn put_s(w: &mut BitW, v: i64, bits: u32) { w.put(v as u64 & (if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 }), bits) }
pub fn put_const(w: &mut BitW, v: i64, bps: u32) { sub_header(w, T_CONST, 0); put_s(w, v, bps) }
pub fn put_verbatim(w: &mut BitW, v: &[i64], bps: u32) { sub_header(w, T_VERB, 0); for &x in v { put_s(w, x, bps) } }

/// The coded number for a known value, in its shortest form.
pub fn coded(n: u64) -> Vec<u8> {
    let mut v = Vec::new();
    if n < 0x80 { v.push(n as u8); return v; }
    let mut extra = 1; while n >> (6 * extra + 6 - extra) != 0 { extra += 1; }
    let lead = (0xff00u32 >> (extra + 1)) as u8;
    v.push(lead | (n >> (6 * extra)) as u8);
    let mut i = extra; while i > 0 { i -= 1; v.push(0x80 | ((n >> (6 * i)) & 0x3f) as u8); }
    v
}
pub fn bps_code(bps: u32) -> u64 { match bps { 8 => 1, 12 => 2, 16 => 4, 20 => 5, 24 => 6, _ => 0 } }
/// A frame header with the block size stored explicitly, sample rate code 9, and a correct CRC-8.
pub fn frame_header(variable: bool, bs: u32, chan: u64, bps: u32, number: &[u8]) -> BitW {
    let mut w = BitW::new();
    w.put(0x3ffe, 14); w.put(0, 1); w.put(variable as u64, 1);
    let b8 = bs <= 256;
    w.put(if b8 { 6 } else { 7 }, 4); w.put(9, 4); w.put(chan, 4); w.put(bps_code(bps), 3); w.put(0, 1);
    for &b in number { w.put(b as u64, 8) }
    if b8 { w.put(bs as u64 - 1, 8) } else { w.put(bs as u64 - 1, 16) }
    let c = crc8(&w.out); w.put(c as u64, 8);
    w
}
pub fn frame_end(mut w: BitW) -> Vec<u8> { w.align(); let c = crc16(&w.out); w.put(c as u64, 16); w.out }

/// A 34-byte streaminfo body.
pub fn streaminfo(min_bs: u32, max_bs: u32, ch: u32, bps: u32, samples: u64) -> Vec<u8> {
    let mut w = BitW::new();
    w.put(min_bs as u64, 16); w.put(max_bs as u64, 16); w.put(0, 24); w.put(0, 24); w.put(44100, 20);
    w.put(ch as u64 - 1, 3); w.put(bps as u64 - 1, 5); w.put(samples, 36);
    for i in 0..16 { w.put(i, 8) }
    w.out
}
pub fn meta_block(out: &mut Vec<u8>, last: bool, ty: u8, body: &[u8]) {
    out.push((last as u8) << 7 | ty); out.push((body.len() >> 16) as u8); out.push((body.len() >> 8) as u8); out.push(body.len() as u8);
    out.extend_from_slice(body);
}
pub fn le32(out: &mut Vec<u8>, v: u32) { out.extend_from_slice(&v.to_le_bytes()) }
/// A stream start: marker and a single streaminfo block.
pub fn stream_start(min_bs: u32, max_bs: u32, ch: u32, bps: u32) -> Vec<u8> {
    let mut v = b"fLaC".to_vec(); let si = streaminfo(min_bs, max_bs, ch, bps, 0); meta_block(&mut v, true, 0, &si); v
}

// ---------------------------------------------------------------- Rice symbols
/// A Rice-coded value: known quotient, remainder of `k` bits.
#[derive(Clone, Copy)]
pub struct Rice { pub q: u32, pub r: u64 }
impl Rice {
    pub fn put(&self, w: &mut BitW, k: u32) { w.unary(self.q); w.put(self.r, k) }
    /// The signed value, by cases on the parity of the folded value.
    pub fn value(&self, k: u32) -> i64 { let v = ((self.q as u64) << k) | self.r; let h = (v >> 1) as i64; if v & 1 == 1 { -h - 1 } else { h } }
}
/// A symbol with a free `k`-bit remainder whose parity (the sign of the value) is fixed.
pub fn rice_sym(q: u32, k: u32, odd: bool) -> Rice {
    if k == 0 { return Rice { q, r: 0 }; }
    let hi = if k > 1 { crate::sym::bits(k - 1) } else { 0 };
    Rice { q, r: hi << 1 | odd as u64 }
}
pub fn rice_const(v: i64, k: u32) -> Rice { let z = if v < 0 { ((-v - 1) as u64) * 2 + 1 } else { v as u64 * 2 }; Rice { q: (z >> k) as u32, r: z & ((1u64 << k) - 1) } }

// ---------------------------------------------------------------- reference subframe decoder
pub struct RefBits<'a> { pub d: &'a [u8], pub pos: usize }
impl<'a> RefBits<'a> {
    pub fn get(&mut self, n: u32) -> Result<u64, u32> {
        if self.pos + n as usize > self.d.len() * 8 { return Err(EOF); }
        let v = bits_at(self.d, self.pos, n); self.pos += n as usize; Ok(v)
    }
    pub fn sget(&mut self, n: u32) -> Result<i64, u32> { if n == 0 { return Ok(0) } let v = self.get(n)?; Ok(((v << (64 - n)) as i64) >> (64 - n)) }
    pub fn unary(&mut self) -> Result<u64, u32> { let mut n = 0; loop { if self.get(1)? == 1 { return Ok(n) } n += 1; } }
}
/// Decodes one subframe by the book. `None` in place of a vector: values are not representable, result unspecified.
pub fn ref_subframe(b: &mut RefBits, bps: u32, n: usize) -> Result<Option<Vec<i32>>, u32> {
    if b.get(1)? == 1 { return Err(FMT); }
    let ty = b.get(6)?;
    let kind = if ty == 0 { 0 } else if ty == 1 { 1 } else if ty < 8 { return Err(FMT) } else if ty <= 12 { 2 } else if ty < 32 { return Err(FMT) } else { 3 };
    let wasted = if b.get(1)? == 1 { b.unary()? + 1 } else { 0 };
    if wasted > 31 || wasted as u32 >= bps { return Err(FMT); }
    let w = wasted as u32; let sb = bps - w;
    let mut out: Vec<i32> = Vec::with_capacity(n); let mut defined = true;
    match kind {
        0 => { let v = b.sget(sb)? as i32; for _ in 0..n { out.push(v) } }
        1 => { for _ in 0..n { let v = b.sget(sb)? as i32; out.push(v) } }
        _ => {
            let order = if kind == 2 { ty as usize - 8 } else { ty as usize - 31 };
            if order > n { return Err(FMT); }
            for _ in 0..order { let v = b.sget(sb)? as i32; out.push(v) }
            let mut coef: Vec<i64> = Vec::new(); let mut shift = 0;
            if kind == 2 {
                coef = match order { 0 => vec![], 1 => vec![1], 2 => vec![2, -1], 3 => vec![3, -3, 1], _ => vec![4, -6, 4, -1] };
            } else {
                let prec = b.get(4)? as u32 + 1; if prec == 16 { return Err(FMT); }
                let s = b.sget(5)?; if s < 0 { return Err(UNS); } shift = s as u32;
                for _ in 0..order { let c = b.sget(prec)?; coef.push(c) }
            }
            let method = b.get(2)?; if method > 1 { return Err(FMT); }
            let po = b.get(4)? as u32;
            let parts = 1usize << po;
            if n % parts != 0 { return Err(FMT); }
            let per = n / parts; if order > per { return Err(FMT); }
            for p in 0..parts {
                let k = b.get(if method == 0 { 4 } else { 5 })? as u32;
                if k == (if method == 0 { 15 } else { 31 }) { return Err(UNS); }
                let m = if p == 0 { per - order } else { per };
                for _ in 0..m {
                    let q = b.unary()?; let r = b.get(k)?;
                    if (q as u128) << k >= 1u128 << 32 { defined = false; }
                    let v = (q << k) as u32 | r as u32;
                    let h = v >> 1; let res = if v & 1 == 1 { !h } else { h } as i32;
                    let i = out.len();
                    let mut acc = 0i64; let mut j = 0; while j < order { acc += coef[j] * out[i - 1 - j] as i64; j += 1; }
                    let x = (acc >> shift).wrapping_add(res as i64);
                    out.push(x as i32);
                }
            }
        }
    }
    for x in out.iter_mut() { *x = ((*x as u32) << w) as i32 }
    Ok(if defined { Some(out) } else { None })
}
/// Compare a decoding of the arbitrary bytes `d` starting at bit `off` with the reference.
pub fn compare_subframe(d: &[u8], off: u32, bps: u32, n: usize) -> u32 {
    use crate::sym::*;
    let mut bs = claxon::input::Bitstream::new(Src::new(d.to_vec()));
    check(bs.read_leq_u8(off).unwrap() as u64 == bits_at(d, 0, off), "prefix");
    let mut buf = vec![0i32; n];
    let r = claxon::subframe::decode(&mut bs, bps, &mut buf);
    let mut rb = RefBits { d, pos: off as usize };
    let e = ref_subframe(&mut rb, bps, n);
    let c = class(&r);
    observe(c as u64);
    match e {
        Err(k) => { check(c == k || (c == EOF && k != OK), "the subframe is refused with the right class of error"); }
        Ok(o) => {
            check(c == OK, "a well-formed subframe is decoded");
            if let Some(o) = o { let mut i = 0; while i < n { check(buf[i] == o[i], "every sample equals the reference decoding"); i += 1; } }
            // the stream continues right behind the subframe
            if rb.pos + 8 <= d.len() * 8 { check(bs.read_leq_u8(8).unwrap() as u64 == bits_at(d, rb.pos, 8), "exactly the bits of the subframe are consumed"); }
        }
    }
    c
}
