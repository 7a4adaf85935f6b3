//! C07 constant and verbatim subframes, C08 fixed prediction, C09 linear prediction, C10 residual coding, C11 stereo.
use crate::sym::*;
use crate::util::*;
use claxon::frame::FrameReader;
use claxon::input::Bitstream;
use std::io::Cursor;

/// Decodes one subframe that starts `off` bits into the stream; returns the class and the samples, and checks the
/// position afterwards by a marker byte behind the subframe.
fn run(mut w: BitW, off: u32, bps: u32, n: usize) -> (u32, Vec<i32>) {
    let mark = byte(); w.put(mark as u64, 8); w.align(); for _ in 0..6 { w.put(0xff, 8) }
    let mut bs = Bitstream::new(Src::new(w.out));
    if off > 0 { check(bs.read_leq_u8(off).is_ok(), "prefix"); }
    let mut b = Vec::with_capacity(n); for i in 0..n { b.push(0x5a5a5a5a ^ i as i32) } // left over values must not matter
    let r = claxon::subframe::decode(&mut bs, bps, &mut b);
    let c = class(&r);
    if c == OK { check(bs.read_leq_u8(8).unwrap() == mark, "exactly the bits of the subframe are consumed"); }
    (c, b)
}
fn begin(off: u32) -> BitW { let mut w = BitW::new(); if off > 0 { w.put(bits(off), off) } w }
fn expect(got: &(u32, Vec<i32>), want: &[i64], wasted: u32, msg: &'static str) {
    check(got.0 == OK, "a complete subframe is decoded");
    if got.0 == OK { let mut i = 0; while i < want.len() { check(got.1[i] == ((want[i] as i32 as u32) << wasted) as i32, msg); i += 1; } }
}
fn off() -> u32 { pick(&[0u32, 1, 4, 7]) }

pub fn c07_constant() {
    let bps = 1 + choose(32); let wasted = choose(bps); let n = pick(&[1usize, 2, 9]); let o = if thorough() { choose(8) } else { (bps + wasted) & 7 };
    let mut w = begin(o); sub_header(&mut w, T_CONST, wasted); let x = sbits(bps - wasted); put_s(&mut w, x, bps - wasted);
    let g = run(w, o, bps, n); let mut xs = Vec::new(); for _ in 0..n { xs.push(x) } expect(&g, &xs, wasted, "every sample is the constant, shifted by the wasted bits"); reach("constant");
}
pub fn c07_verbatim() {
    let bps = 1 + choose(32); let wasted = choose(bps); let n = pick(&[1usize, 2, 3, 10]); let o = if thorough() { choose(8) } else { (bps + 3 * wasted) & 7 };
    let mut w = begin(o); sub_header(&mut w, T_VERB, wasted); let mut xs = Vec::new(); for _ in 0..n { let x = sbits(bps - wasted); put_s(&mut w, x, bps - wasted); xs.push(x) }
    let g = run(w, o, bps, n); expect(&g, &xs, wasted, "every sample is the stored value, shifted by the wasted bits"); reach("verbatim");
}
/// As many wasted bits as the sample is wide, or more, leave no sample.
pub fn c07_wasted() {
    let bps = 1 + choose(32); let ty = pick(&[T_CONST, T_VERB, T_FIXED, T_FIXED + 4, T_LPC, T_LPC + 31]); let k = bps + pick(&[0u32, 1, 2, 9, 40, 200]);
    let mut w = begin(0); sub_header(&mut w, ty, k); for _ in 0..60 { w.put(byte() as u64, 8) }
    check(run(w, 0, bps, 33).0 == FMT, "a subframe without any bits left is refused"); reach("refused");
}
/// The subframe header: padding bit and type code. Behind the header comes what a decoder that takes the reserved type
/// for another one could go on with: zeros for warm-up samples and coefficients, then ones for residuals.
pub fn c07_header() {
    let h = byte(); let bps = pick(&[8u32, 17]); let n = pick(&[1usize, 2, 7, 33, 40]); let zeros = pick(&[0usize, 3, 12, 90, 160]); let mut d = vec![h]; for _ in 0..zeros { d.push(0) } for _ in 0..400 { d.push(0xff) }
    let t = (h >> 1) & 63; let bad = h >> 7 == 1 || (t > 1 && t < 8) || (t > 12 && t < 32);
    let mut b = vec![0i32; n]; let c = class(&claxon::subframe::decode(&mut Bitstream::new(Src::new(d)), bps, &mut b));
    if bad { reach("reserved"); check(c == FMT, "a reserved subframe type is refused") }
    else if t < 2 && h & 1 == 0 { reach("plain"); check(c == OK, "a constant or verbatim subframe is decoded") }
    observe(c as u64);
}
/// Longer verbatim and constant blocks through the whole frame decoder, with wasted bits.
pub fn c07_frame() {
    let bps = pick(&[8u32, 12, 16, 20, 24]); let n = pick(&[16u32, 33]); let wasted = choose(bps); let c = choose(2) == 0;
    let mut w = frame_header(false, n, 0, bps, &[0]); let sb = bps - wasted; let mut xs = Vec::new();
    if c { sub_header(&mut w, T_CONST, wasted); let x = sbits(sb); put_s(&mut w, x, sb); for _ in 0..n { xs.push(x) } }
    else { sub_header(&mut w, T_VERB, wasted); for _ in 0..n { let x = sbits(sb); put_s(&mut w, x, sb); xs.push(x) } }
    match FrameReader::new(Cursor::new(frame_end(w))).read_next_or_eof(Vec::new()) {
        Ok(Some(b)) => { reach("frame"); for i in 0..n { check(b.sample(0, i) as i64 == xs[i as usize] << wasted, "every sample is exact") } }
        _ => check(false, "a complete frame is decoded"),
    }
}

/// Where the long blocks end: around the sizes that encoders use and the powers of two, up to the largest.
fn long_size() -> usize { pick(&[256usize, 1153, 4096, 4097, 4608, 4609, 8195, 16385, 32769, 65535]) }
/// The positions in a long block that hold free values.
fn spot(i: usize, n: usize) -> bool { i % 4096 == 1 || i == 4608 || i + 3 >= n }
/// Long constant and verbatim blocks: every position up to the last.
pub fn c07_long() {
    let n = long_size(); let c = choose(2) == 0; let bps = pick(&[8u32, 16, 24]); let wasted = choose(2) * 3; let sb = bps - wasted;
    let mut w = begin(0); w.out.reserve(4 * n); let mut xs = Vec::with_capacity(n);
    if c { sub_header(&mut w, T_CONST, wasted); let x = sbits(sb); put_s(&mut w, x, sb); for _ in 0..n { xs.push(x) } reach("constant") }
    else { sub_header(&mut w, T_VERB, wasted); for i in 0..n { let x = if spot(i, n) { sbits(sb) } else { ((i as i64 * 2654435761) << (64 - sb)) >> (64 - sb) }; put_s(&mut w, x, sb); xs.push(x) } reach("verbatim") }
    let g = run(w, 0, bps, n); expect(&g, &xs, wasted, "every sample of a long block is exact");
}
/// Long predicted blocks: `cs` over `shift`; the residuals are mostly small known values, free towards the end.
fn long(ty: u64, cs: &[i64], shift: u32, bps: u32, n: usize, po: u32) {
    let order = cs.len(); let mut w = begin(0); w.out.reserve(4 * n); sub_header(&mut w, ty, 0); let mut xs: Vec<i64> = Vec::with_capacity(n);
    for i in 0..order { let x = (i as i64 * 37) % 100 - 50; put_s(&mut w, x, bps); xs.push(x) }
    if ty >= T_LPC { w.put(14, 4); w.put(shift as u64, 5); for &c in cs { put_s(&mut w, c, 15) } }
    w.put(0, 2); w.put(po as u64, 4); let per = n >> po;
    for i in order..n {
        if i == order || i % per == 0 { w.put(3, 4) }
        let free = i + 3 >= n; let mut p = 0; for j in 0..order { p += cs[j] * xs[i - 1 - j] } let p = p >> shift;
        // known residuals pull the signal back towards zero
        let v = if free { let s = rice_sym(i as u32 & 1, 3, i & 2 == 2); s.put(&mut w, 3); s.value(3) } else { let v = if p > 3 { -4 } else if p < -3 { 4 } else { (i % 5) as i64 - 2 }; rice_const(v, 3).put(&mut w, 3); v };
        xs.push((p + v) as i32 as i64);
    }
    let g = run(w, 0, bps, n); expect(&g, &xs, 0, "every sample of a long block is the prediction plus the residual");
}
/// Fixed prediction over long blocks.
pub fn c08_long() {
    let order = choose(5) as usize; let n = long_size(); if n > 10000 && order == 3 && !thorough() { return }
    long(T_FIXED + order as u64, binom(order), 0, 16, n, if n % 256 == 0 { pick(&[0u32, 4]) } else { 0 }); reach("long");
}
/// Linear prediction over long blocks, below and above the internal block of twelve.
pub fn c09_long() {
    let order = pick(&[1usize, 2, 8, 12, 13, 32]); let n = long_size(); if n > 10000 && !thorough() && order != 2 && order != 13 { return }
    let cs: Vec<i64> = (0..order as i64).map(|j| if j == 0 { 5000 } else { (j * 37 + order as i64) % 301 - 150 }).collect();
    long(T_LPC + order as u64 - 1, &cs, 13, 16, n, 0); reach("long");
}

/// Residuals for a predicted subframe: one partition; the caller gets the signed values.
fn residual(w: &mut BitW, m: usize, shape: u32) -> Vec<i64> {
    let mut out = Vec::new();
    let (method, k) = match shape { 0 => (0, 4), 1 => (1, 30), 2 => (0, 14), 3 => (0, 1), _ => (0, 9) };
    w.put(method, 2); w.put(0, 4); w.put(k as u64, if method == 0 { 4 } else { 5 });
    let neg = choose(4);
    for i in 0..m { let odd = match neg { 0 => false, 1 => true, 2 => i & 1 == 1, _ => i & 3 == 3 }; let q = if shape == 1 { (i as u32) & 3 } else { (i as u32 * 7) % 11 }; let r = rice_sym(q, k, odd); r.put(w, k); out.push(r.value(k)) }
    out
}
fn binom(order: usize) -> &'static [i64] { match order { 0 => &[], 1 => &[1], 2 => &[2, -1], 3 => &[3, -3, 1], _ => &[4, -6, 4, -1] } }
/// Fixed prediction of every order: each sample is the polynomial extrapolation plus the residual.
pub fn c08_fixed() {
    let order = choose(5) as usize; let bps = pick(&[4u32, 8, 16, 17, 24, 25, 32]); let wasted = pick(&[0u32, 1, 3]); let sb = bps - wasted; let shape = choose(5);
    let n = order + pick(&[0usize, 1, 5, 12]); let o = (bps + order as u32) & 7;
    let mut w = begin(o); sub_header(&mut w, T_FIXED + order as u64, wasted); let mut xs: Vec<i64> = Vec::new();
    for _ in 0..order { let x = sbits(sb); put_s(&mut w, x, sb); xs.push(x) }
    if n == 0 { return }
    let res = residual(&mut w, n - order, shape); let c = binom(order);
    for r in res { let i = xs.len(); let mut p = 0i64; for j in 0..order { p += c[j] * xs[i - 1 - j] } xs.push((p + r) as i32 as i64) }
    let g = run(w, o, bps, n); expect(&g, &xs, wasted, "every sample is the extrapolation plus the residual"); reach("fixed");
}
/// A predictor order larger than the block.
pub fn c08_too_short() {
    let order = 1 + choose(4) as usize; let lpc = choose(2) == 1; let ord = if lpc { order * 8 } else { order }; if ord == 1 { return } let n = 1 + choose(if thorough() { ord as u32 - 1 } else { order.max(2) as u32 - 1 }) as usize;
    let mut w = begin(0); sub_header(&mut w, if lpc { T_LPC + ord as u64 - 1 } else { T_FIXED + ord as u64 }, 0); for _ in 0..60 { w.put(byte() as u64, 8) }
    check(run(w, 0, 8, n).0 == FMT, "an order larger than the block is refused"); reach("refused");
}

/// Linear prediction. `cs`/`ss`: coefficients and samples are free (or else distinct constants).
fn lpc(order: usize, extra: usize, bps: u32, prec: u32, shift: u32, wasted: u32, cs: bool, ss: bool, shape: u32) {
    let sb = bps - wasted; let n = order + extra; let o = (order as u32 + prec) & 7;
    let mut w = begin(o); sub_header(&mut w, T_LPC + order as u64 - 1, wasted);
    let mut xs: Vec<i64> = Vec::new(); let mut coef: Vec<i64> = Vec::new();
    for i in 0..order { let x = if ss { sbits(sb) } else { ((i as i64 * 7919 + 12345) << (64 - sb)) >> (64 - sb) }; put_s(&mut w, x, sb); xs.push(x) }
    w.put(prec as u64 - 1, 4); w.put(shift as u64, 5);
    for i in 0..order { let c = if cs { sbits(prec) } else { ((i as i64 * 2654435 + 97 - (i as i64 & 1) * 1013) << (64 - prec)) >> (64 - prec) }; put_s(&mut w, c, prec); coef.push(c) }
    let res = residual(&mut w, n - order, shape);
    for r in res { let i = xs.len(); let mut p = 0i64; for j in 0..order { p = p.wrapping_add(coef[j].wrapping_mul(xs[i - 1 - j])) } xs.push(((p >> shift) + r) as i32 as i64) }
    let g = run(w, o, bps, n); expect(&g, &xs, wasted, "every sample is the shifted inner product plus the residual");
}
/// Sums as large as they get: coefficients at their limits with samples of one free magnitude, or the other way round.
pub fn c09_extreme() {
    let order = pick(&[1usize, 4, 8, 11, 12, 13, 16, 31, 32]); let bps = pick(&[8u32, 12, 16, 17, 24, 25, 32]); let prec = pick(&[15u32, 14, 8]); let shift = pick(&[0u32, 7, 15]); let pat = choose(3); let o = order as u32 & 7;
    let up = |j: usize| match pat { 0 => true, 1 => j & 1 == 0, _ => j < order / 2 };
    let (sb, cb, lim) = (bps, prec, choose(2) == 1); let limit = |b: u32, up: bool| if up == lim { -(1i64 << (b - 1)) } else { (1i64 << (b - 1)) - 1 };
    let free_samples = choose(2) == 0; let x = sbits(if free_samples { sb } else { cb });
    let mut w = begin(o); sub_header(&mut w, T_LPC + order as u64 - 1, 0); let mut xs: Vec<i64> = Vec::new(); let mut coef: Vec<i64> = Vec::new();
    for i in 0..order { let u = up(order - 1 - i); let v = if !free_samples { limit(sb, u) } else if u { x } else { !x }; put_s(&mut w, v, sb); xs.push(v) }
    w.put(prec as u64 - 1, 4); w.put(shift as u64, 5);
    for j in 0..order { let u = up(j); let c = if free_samples { limit(cb, u) } else if u { x } else { !x }; put_s(&mut w, c, cb); coef.push(c) }
    let res = residual(&mut w, 1, 0);
    for r in res { let i = xs.len(); let mut p = 0i64; for j in 0..order { p = p.wrapping_add(coef[j].wrapping_mul(xs[i - 1 - j])) } xs.push(((p >> shift) + r) as i32 as i64) }
    let g = run(w, o, bps, order + 1); expect(&g, &xs, 0, "every sample is the shifted inner product plus the residual"); reach("extreme");
}
/// Every order with free samples and distinct known coefficients, also across the internal block of twelve.
pub fn c09_orders() {
    let order = 1 + choose(32) as usize; let extra = pick(&[0usize, 1, 4, 14]); let prec = pick(&[15u32, 7]);
    lpc(order, extra, pick(&[16u32, 24]), prec, pick(&[0u32, 9]), 0, false, true, 4); reach("orders");
}
/// Every order with free coefficients and known warm-up samples.
pub fn c09_coefs() { let order = 1 + choose(32) as usize; lpc(order, pick(&[1usize, 2, 13]), 16, pick(&[15u32, 4]), 5, 0, true, false, 0); reach("coefs"); }
/// Everything free, low orders.
pub fn c09_free() { let order = pick(&[1usize, 2, 3, 12, 13, 32]); lpc(order, pick(&[1usize, 3]), pick(&[8u32, 25, 32]), pick(&[1u32, 12, 15]), pick(&[0u32, 1, 15]), pick(&[0u32, 2]), true, true, 1); reach("free"); }
/// Every precision and shift.
pub fn c09_params() { lpc(pick(&[2usize, 14]), 2, 16, 1 + choose(15), choose(16), 0, true, true, 3); reach("params"); }
/// Wide samples: the sum needs more than 32 bits, and is never cut short.
pub fn c09_wide() { lpc(pick(&[1usize, 8, 12, 32]), 3, pick(&[24u32, 25, 32]), 15, pick(&[0u32, 14]), 0, true, true, 1); reach("wide"); }
/// Invalid precision, negative shift.
pub fn c09_invalid() {
    let order = 1 + choose(32); let mut w = begin(0); sub_header(&mut w, T_LPC + order as u64 - 1, 0); for _ in 0..order { w.put(byte() as u64, 8) }
    let p = bits(4); let s = bits(5); w.put(p, 4); w.put(s, 5); assume(p == 15 || s >= 16); for _ in 0..80 { w.put(0xff, 8) }
    let c = run(w, 0, 8, order as usize + 1).0;
    if p == 15 { reach("precision"); check(c == FMT, "the reserved precision is refused") } else { reach("shift"); check(c == UNS, "a negative shift is unsupported") }
}

/// Residual of a zero-order predictor: samples are the residuals.
fn coded_residual(method: u64, k: u32, po: u32, n: usize, qs: &[u32], odd: bool) {
    let mut w = begin(k & 7); sub_header(&mut w, T_FIXED, 0); w.put(method, 2); w.put(po as u64, 4); let per = n >> po; let mut xs = Vec::new();
    for i in 0..n {
        if i % per == 0 { w.put(k as u64, if method == 0 { 4 } else { 5 }) }
        let r = if k == 0 { Rice { q: qs[i % qs.len()] * 2 + odd as u32, r: 0 } } else { rice_sym(qs[i % qs.len()], k, odd) }; r.put(&mut w, k); xs.push(r.value(k));
    }
    let g = run(w, k & 7, 32, n); expect(&g, &xs, 0, "every residual is unfolded from quotient and remainder");
}
/// Every parameter of both methods, small and large quotients.
pub fn c10_params() {
    let method = choose(2) as u64; let k = choose(if method == 0 { 15 } else { 31 }); let odd = choose(2) == 1; let po = choose(3);
    let qs: &[u32] = if k > 28 { pick(&[&[0u32, 1][..], &[1, 0, 0, 1][..]]) } else if k > 20 { &[0, 7, 1, 3] } else { pick(&[&[0u32, 1, 2, 9][..], &[8, 17, 0, 33][..], &[7, 15, 31, 64][..], &[75, 0, 127, 6][..]]) };
    coded_residual(method, k, po, 8, qs, odd); reach("params");
}
/// A different parameter in every partition, with a predictor taking the place of the first residuals.
pub fn c10_partitions() {
    let po = choose(5); let order = choose(5) as usize; let per = pick(&[1usize, 2, 4, 5]); let n = per << po; let method = choose(2) as u64;
    let mut w = begin(0); sub_header(&mut w, T_FIXED + order as u64, 0); let mut xs = Vec::new();
    for _ in 0..if order <= n { order } else { 0 } { let x = sbits(8); put_s(&mut w, x, 8); xs.push(x) }
    w.put(method, 2); w.put(po as u64, 4);
    if order > per || order > n { for _ in 0..60 { w.put(0xff, 8) } check(run(w, 0, 8, n).0 == FMT, "a first partition smaller than the order is refused"); reach("refused"); return; }
    let c = binom(order);
    for p in 0..1usize << po {
        let k = if method == 0 { (p * 5 + 3) % 15 } else { (p * 11 + 5) % 28 } as u32; w.put(k as u64, if method == 0 { 4 } else { 5 });
        for j in 0..per - if p == 0 { order } else { 0 } { let r = if k == 0 { Rice { q: j as u32 + 1, r: 0 } } else { rice_sym((j + p) as u32 % 5, k, (j + p) % 3 == 1) }; r.put(&mut w, k);
            let i = xs.len(); let mut s = r.value(k); for t in 0..order { s += c[t] * xs[i - 1 - t] } xs.push(s as i32 as i64) }
    }
    let g = run(w, 0, 8, n); expect(&g, &xs, 0, "partitions follow one another, each with its parameter"); reach("partitions");
}
/// Large partition orders on large blocks; a block that the partitions do not divide.
pub fn c10_large() {
    let po = pick(&[5u32, 8, 11, 15]); let per = pick(&[1usize, 2, 3]); let rest = choose(2); if (per << po) + rest as usize > 65535 { return }
    let n = (per << po) + rest as usize; let mut w = begin(0); w.out.reserve(n); sub_header(&mut w, T_FIXED, 0); w.put(0, 2); w.put(po as u64, 4);
    if rest == 1 && po > 0 { for _ in 0..8 { w.put(0xff, 8) } check(run(w, 0, 8, n).0 == FMT, "partitions that do not fill the block are refused"); reach("refused"); return; }
    let mut xs: Vec<i64> = Vec::with_capacity(n); let free = bits(1);
    for p in 0..1usize << po { let s = p % 251 == 7; w.put(s as u64, 4); for _ in 0..per { if s { w.unary(1); w.put(free, 1); xs.push(1 - 3 * free as i64) } else { w.unary((p & 1) as u32); xs.push(-((p & 1) as i64)) } } }
    let g = run(w, 0, 8, n); check(g.0 == OK, "a complete subframe is decoded"); let mut i = 0; while i < n { check(g.1[i] as i64 == xs[i], "partitions follow one another"); i += 1 } reach("large");
}
/// Very large quotients: as many zero bits as the value calls for.
pub fn c10_quotients() {
    let (k, qs): (u32, &[u32]) = pick(&[(0u32, &[1000u32, 0, 4097][..]), (0, &[65535, 1]), (0, &[65536, 0]), (1, &[65537, 2]), (4, &[70000, 3]), (9, &[0, 131073]), (14, &[16384, 1]), (14, &[131000, 0]), (14, &[131072, 1]), (14, &[262143, 0]), (13, &[262144, 3]), (11, &[1 << 20, 1]), (9, &[(1 << 22) + 1, 0]), (8, &[1 << 23, 1])]); let method = choose(2) as u64; if qs[0] > 1 << 19 && method == 1 && !thorough() { return }
    coded_residual(method, k, choose(2), 4, qs, choose(2) == 1); reach("quotients");
}
/// Reserved methods, escape codes, partition orders that do not fit.
pub fn c10_refused() {
    let n = pick(&[1usize, 4, 6, 8, 12, 16]); let order = choose(3) as usize; if order > n { return } let mut w = begin(0); sub_header(&mut w, T_FIXED + order as u64, 0); for _ in 0..order { w.put(0, 8) }
    let m = bits(2); let po = bits(4); w.put(m, 2); w.put(po, 4); let esc = choose(2) == 1;
    if esc { w.put(31, 5) } for _ in 0..40 { w.put(if esc { 0xff } else { 0x0c }, 8) }
    let parts = 1u64 << po; let fit = n as u64 & (parts - 1) == 0 && order as u64 <= n as u64 >> po;
    w.align(); let mut b = vec![0i32; n]; let c = class(&claxon::subframe::decode(&mut Bitstream::new(Src::new(w.out)), 8, &mut b));
    if m > 1 { reach("method"); check(c == FMT, "a reserved coding method is refused") }
    else if !fit { reach("misfit"); check(c == FMT, "partitions that do not fit the block are refused") }
    else if esc { reach("escape"); check(c == UNS, "an unencoded partition is unsupported") } else { observe(c as u64); reach("other") }
}

/// Left, right, mid and side channels as an encoder makes them: the original pair comes back.
pub fn c11_lossless() {
    let chan = 8 + choose(3) as u64; let bps = pick(&[8u32, 12, 16, 20, 24]); let n = if thorough() { pick(&[1u32, 2, 5, 17, 40]) } else { pick(&[1u32, 5, 17]) };
    let (mut l, mut r) = (Vec::new(), Vec::new()); for _ in 0..n { l.push(sbits(bps)); r.push(sbits(bps)) }
    let mut w = frame_header(false, n, chan, bps, &[0]);
    for ch in 0..2 {
        let side = (chan == 9) == (ch == 0); let mut xs = Vec::new();
        for i in 0..n as usize { xs.push(if side { l[i] - r[i] } else if chan == 10 { (l[i] + r[i]) >> 1 } else if chan == 8 { l[i] } else { r[i] }) }
        put_verbatim(&mut w, &xs, bps + side as u32);
    }
    check_pair(w, n, &l, &r);
}
fn check_pair(w: BitW, n: u32, l: &[i64], r: &[i64]) {
    match FrameReader::new(Cursor::new(frame_end(w))).read_next_or_eof(Vec::new()) {
        Ok(Some(b)) => { reach("stereo"); check(b.channels() == 2, "two channels"); let (x, y) = (b.channel(0), b.channel(1));
            for i in 0..n as usize { check(x[i] as i64 == l[i], "the left channel comes back"); check(y[i] as i64 == r[i], "the right channel comes back"); } }
        _ => check(false, "a complete frame is decoded"),
    }
}
/// Long stereo blocks.
pub fn c11_long() {
    let chan = 8 + choose(3) as u64; let n = long_size(); let bps = pick(&[8u32, 24]); let (mut l, mut r) = (Vec::with_capacity(n), Vec::with_capacity(n));
    if n > 10000 && !thorough() && (chan as usize + n / 16384) % 3 != 0 { return }
    let (top, bot) = ((1i64 << (bps - 1)) - 1, -(1i64 << (bps - 1)));
    // the coded pair of the last positions: the first value known, the second one free
    let mut coded: Vec<(i64, i64)> = Vec::with_capacity(n);
    for i in 0..n {
        if i + 3 >= n { let a = i as i64 % 11 - 5; let b = sbits(bps - 1); coded.push((a, b)); match chan { 8 => { l.push(a); r.push(a - b) } 9 => { l.push(a + b); r.push(b) } _ => { let m = 2 * a + (b & 1); l.push((m + b) >> 1); r.push((m - b) >> 1) } } }
        else { let x = match i % 5 { 0 => top, 1 => bot, _ => (i as i64 * 31) % 100 - 50 }; let y = match i % 7 { 0 => bot, 1 => top, _ => 17 - (i as i64 * 13) % 91 }; l.push(x); r.push(y); coded.push(match chan { 8 => (x, x - y), 9 => (x - y, y), _ => ((x + y) >> 1, x - y) }) }
    }
    let mut w = frame_header(false, n as u32, chan, bps, &[0]); w.out.reserve(8 * n);
    for ch in 0..2 { let side = (chan == 9) == (ch == 0); let sb = bps + side as u32; sub_header(&mut w, T_VERB, 0); for &(a, b) in &coded { put_s(&mut w, if ch == 0 { a } else { b }, sb) } }
    check_pair(w, n as u32, &l, &r);
}
/// Arbitrary coded pairs, also such that no encoder makes: reconstruction by definition.
pub fn c11_values() {
    let chan = 8 + choose(3) as u64; let bps = pick(&[8u32, 16, 24]); let n = pick(&[1u32, 4, 9]);
    let mut w = frame_header(false, n, chan, bps, &[0]); let (mut a, mut b) = (Vec::new(), Vec::new());
    let (ba, bb) = (bps + (chan == 9) as u32, bps + (chan != 9) as u32); let wa = choose(2); let wb = pick(&[0u32, 1, 3]);
    sub_header(&mut w, T_VERB, wa); for _ in 0..n { let x = sbits(ba - wa); put_s(&mut w, x, ba - wa); a.push(x << wa) }
    sub_header(&mut w, T_VERB, wb); for _ in 0..n { let x = sbits(bb - wb); put_s(&mut w, x, bb - wb); b.push(x << wb) }
    let (mut l, mut r) = (Vec::new(), Vec::new());
    for i in 0..n as usize { let (x, y) = match chan { 8 => (a[i], a[i] - b[i]), 9 => (a[i] + b[i], b[i]), _ => { let m = a[i] * 2 + (b[i] & 1); ((m + b[i]) >> 1, (m - b[i]) >> 1) } }; l.push(x); r.push(y) }
    check_pair(w, n, &l, &r);
}
