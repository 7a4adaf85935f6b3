//! C02: bit-level reading. Every sequence of reads returns exactly the consecutive bits of the input.
use crate::sym::*;
use crate::util::*;
use claxon::input::Bitstream;
use std::io;

/// One read of a chosen kind and width; the number of bits it takes, or the error.
fn step(bs: &mut Bitstream<Src>, d: &[u8], pos: usize) -> Result<usize, io::Error> {
    let have = d.len() * 8 - pos;
    let (n, r) = match choose(6) {
        0 => (1, bs.read_bit().map(|b| b as u64)),
        1 => { let n = choose(9); (n, bs.read_leq_u8(n).map(|b| b as u64)) }
        2 => { let n = 9 + choose(8); (n, bs.read_gt_u8_leq_u16(n).map(|b| b as u64)) }
        3 => { let n = choose(17); (n, bs.read_leq_u16(n).map(|b| b as u64)) }
        4 => { let n = choose(33); (n, bs.read_leq_u32(n).map(|b| b as u64)) }
        _ => {
            let r = bs.read_unary();
            return match r {
                Ok(q) => {
                    let q = conc(q as u64) as usize;
                    check(q < have, "a unary read stays inside the data");
                    let mut i = 0; while i < q { check(bits_at(d, pos + i, 1) == 0, "a unary read skips only zero bits"); i += 1; }
                    check(bits_at(d, pos + q, 1) == 1, "a unary read stops at a one bit"); observe(q as u64);
                    Ok(q + 1)
                }
                Err(e) => { let mut i = 0; while i < have { check(bits_at(d, pos + i, 1) == 0, "a unary read fails only when no one bit is left"); i += 1; } Err(e) }
            };
        }
    };
    match r {
        Ok(v) => { check(n as usize <= have, "a read beyond the end fails"); check(v == bits_at(d, pos, n), "a read returns the next bits, first bit most significant"); observe(v); Ok(n as usize) }
        Err(e) => { check(n as usize > have, "a read that fits does not fail"); Err(e) }
    }
}
fn run(len: usize, steps: u32) {
    let d = sym_vec(len);
    let mut bs = Bitstream::new(Src::new(d.clone()));
    let pre = choose(8); let mut pos = 0usize;
    if len > 0 { check(bs.read_leq_u8(pre).unwrap() as u64 == bits_at(&d, 0, pre), "the first bits"); pos = pre as usize; }
    for _ in 0..steps {
        match step(&mut bs, &d, pos) {
            Ok(n) => pos += n,
            Err(e) => { check(io_class(&e) == EOF, "running out of data is an unexpected-end error"); observe(0xee); reach("eof"); return; }
        }
    }
    reach("done");
}
/// Any bit offset, then two reads of every kind and width.
pub fn c02_mixed() { run(if thorough() { 14 } else { 12 }, 2); }
/// Few bytes: reads that run into the end of the data, at every bit offset.
pub fn c02_eof() { let n = choose(6) as usize; run(n, if thorough() { 3 } else { 2 }); }
/// Three reads from a narrower menu.
pub fn c02_three() { 
    let d = sym_vec(9); let mut bs = Bitstream::new(Src::new(d.clone())); let mut pos = 0usize;
    for _ in 0..(if thorough() { 4 } else { 3 }) {
        let (n, v) = match choose(8) {
            0 => (1, bs.read_bit().unwrap() as u64), 1 => (3, bs.read_leq_u8(3).unwrap() as u64), 2 => (8, bs.read_leq_u8(8).unwrap() as u64), 3 => (0, bs.read_leq_u8(0).unwrap() as u64),
            4 => (9, bs.read_gt_u8_leq_u16(9).unwrap() as u64), 5 => (14, bs.read_gt_u8_leq_u16(14).unwrap() as u64), 6 => (16, bs.read_leq_u16(16).unwrap() as u64), _ => (17, bs.read_leq_u32(17).unwrap() as u64) };
        check(v == bits_at(&d, pos, n), "reads return consecutive bits"); observe(v); pos += n as usize;
    }
    reach("done");
}
/// Long runs of zeros, across many bytes, from every bit offset.
pub fn c02_unary() {
    let zeros = pick(&[0u32, 1, 6, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 63, 64, 65, 127, 128, 255, 256, 257, 300, 511, 512, 1000, 2048, 4095, 8192, 16391, 32767, 32768, 65535, 65536, 65537, 70001, 131072]);
    let pre = choose(8); if zeros > 1000 && !thorough() && (pre ^ zeros) & 3 != 1 { return } let mut w = BitW::new();
    let p = bits(pre.max(1)); w.put(p, pre); w.unary(zeros); let t = bits(32); w.put(t, 32); w.align(); w.put(0, 8);
    let mut bs = Bitstream::new(Src::new(w.out.clone()));
    bs.read_leq_u8(pre).unwrap();
    check(bs.read_unary().unwrap() == zeros, "a unary read counts every zero bit");
    check(bs.read_leq_u32(32).unwrap() as u64 == t, "the bits after the unary code follow");
    observe(t); reach("done");
}
