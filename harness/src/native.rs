//! Native implementation of the symbolic-input interface, used to replay recorded inputs.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

pub struct St { pub inputs: Vec<(u32, u64)>, pub pos: usize, pub obs: Vec<u64>, pub exhausted: bool, pub tier: u32, pub expect: bool, pub diverged: Option<String> }
pub static ST: Mutex<St> = Mutex::new(St { inputs: Vec::new(), pos: 0, obs: Vec::new(), exhausted: false, tier: 0, expect: false, diverged: None });
pub static PATTERN: AtomicU8 = AtomicU8::new(0xa5);
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static BASE: AtomicUsize = AtomicUsize::new(0);
pub static LIMIT: AtomicU64 = AtomicU64::new(0);

thread_local! { /// Only the thread that runs the harness counts: the watchdog and the test runtime allocate too.
    pub static COUNTED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
fn counted() -> bool { COUNTED.try_with(|c| c.get()).unwrap_or(false) }
pub struct Poison;
fn over(n: usize) -> bool { if !counted() { return false } let l = LIMIT.load(Relaxed); l != 0 && (LIVE.load(Relaxed) + n).saturating_sub(BASE.load(Relaxed)) as u64 > l }
fn fail_alloc() -> ! { LIMIT.store(0, Relaxed); finish("assert:live heap memory exceeds the limit") }
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if over(l.size()) { fail_alloc() }
        let p = System.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, PATTERN.load(Relaxed), l.size()); if counted() { LIVE.fetch_add(l.size(), Relaxed); } }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if counted() { LIVE.fetch_sub(l.size(), Relaxed); } System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if over(l.size()) { fail_alloc() }
        let p = System.alloc_zeroed(l); if !p.is_null() && counted() { LIVE.fetch_add(l.size(), Relaxed); } p
    }
}
#[global_allocator]
static A: Poison = Poison;

fn next(w: u32) -> u64 {
    let mut s = ST.lock().unwrap();
    if s.pos >= s.inputs.len() { s.exhausted = true; return 0; }
    let (iw, v) = s.inputs[s.pos]; s.pos += 1;
    if iw != w && s.diverged.is_none() { s.diverged = Some(format!("input {} has width {} but {} was requested", s.pos - 1, iw, w)); }
    v
}
pub fn finish(how: &str) -> ! {
    LIMIT.store(0, Relaxed);
    let s = match ST.try_lock() { Ok(s) => s, Err(_) => { println!("END {}", how); std::process::exit(0) } };
    print!("OBS"); for o in &s.obs { print!(" {:x}", o); } println!();
    if let Some(d) = &s.diverged { println!("DIVERGED {}", d); }
    if s.exhausted { println!("EXHAUSTED"); }
    println!("USED {}", s.pos);
    println!("END {}", how);
    use std::io::Write; let _ = std::io::stdout().flush();
    std::process::exit(0)
}
pub unsafe fn sym_u8() -> u8 { next(8) as u8 }
pub unsafe fn sym_bits(n: u32) -> u64 { let mut r = 0; let mut k = 0; while k < n { let w = if n - k > 8 { 8 } else { n - k }; r |= next(w) << k; k += w; } r }
pub unsafe fn sym_choose(n: u32) -> u32 { let v = next(32); if v >= n as u64 { finish("diverged:choose") } v as u32 }
pub unsafe fn sym_assume(c: u32) { if c == 0 { finish("assume") } }
pub unsafe fn sym_assert(c: u32, p: *const u8, n: usize) { if c == 0 { let m = std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap(); finish(&format!("assert:{}", m)) } }
pub unsafe fn sym_observe(v: u64) { ST.lock().unwrap().obs.push(v) }
pub unsafe fn sym_reach(_: *const u8, _: usize) {}
pub unsafe fn sym_expect_panic(v: u32) { ST.lock().unwrap().expect = v != 0 }
pub unsafe fn sym_alloc_limit(n: u64) { BASE.store(LIVE.load(Relaxed), Relaxed); LIMIT.store(n, Relaxed) }
pub unsafe fn sym_tier() -> u32 { ST.lock().unwrap().tier }
pub unsafe fn sym_live() -> u64 { LIVE.load(Relaxed).wrapping_sub(BASE.load(Relaxed)) as u64 }
pub unsafe fn sym_conc(v: u64) -> u64 { v }
pub unsafe fn sym_is_init(p: *const u8, n: usize) -> u32 { let mut h = 0u64; for i in 0..n { h = h.wrapping_mul(31).wrapping_add(*p.add(i) as u64); } UNINIT_HASH.store(UNINIT_HASH.load(Relaxed).wrapping_mul(131).wrapping_add(h), Relaxed); 1 }
pub static UNINIT_HASH: AtomicU64 = AtomicU64::new(0);
pub unsafe fn sym_fill(p: *mut u8, n: usize) { for i in 0..n { *p.add(i) = next(8) as u8; } }
