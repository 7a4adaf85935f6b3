//! The symbolic-input interface. Under the symbolic executor these are intrinsics; in the native
//! replay build they read a recorded input list and record observations.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_bits(n: u32) -> u64;
        pub fn sym_choose(n: u32) -> u32;
        pub fn sym_assume(c: u32);
        pub fn sym_assert(c: u32, p: *const u8, n: usize);
        pub fn sym_observe(v: u64);
        pub fn sym_reach(p: *const u8, n: usize);
        pub fn sym_expect_panic(v: u32);
        pub fn sym_alloc_limit(n: u64);
        pub fn sym_tier() -> u32;
        pub fn sym_live() -> u64;
        pub fn sym_conc(v: u64) -> u64;
        pub fn sym_is_init(p: *const u8, n: usize) -> u32;
        pub fn sym_fill(p: *mut u8, n: usize);
    }
}
#[cfg(feature = "native")]
use crate::native as imp;
#[cfg(not(feature = "native"))]
use imp::*;

#[cfg(feature = "native")]
use imp::*;

/// A fresh symbolic byte.
#[inline(always)]
pub fn byte() -> u8 { unsafe { sym_u8() } }
/// A fresh symbolic value of `n` bits, zero-extended (n ≤ 64).
#[inline(always)]
pub fn bits(n: u32) -> u64 { unsafe { sym_bits(n) } }
/// A fresh symbolic two's complement value of `n` bits (1 ≤ n ≤ 64).
#[inline(always)]
pub fn sbits(n: u32) -> i64 { ((unsafe { sym_bits(n) } << (64 - n)) as i64) >> (64 - n) }
/// Case split: one path for every value below `n`.
#[inline(always)]
pub fn choose(n: u32) -> u32 { unsafe { sym_choose(n) } }
#[inline(always)]
pub fn assume(c: bool) { unsafe { sym_assume(c as u32) } }
#[inline(always)]
pub fn check(c: bool, msg: &'static str) { unsafe { if !QUIET { sym_assert(c as u32, msg.as_ptr(), msg.len()) } } }
static mut QUIET: bool = false;
/// From here on `check` demands nothing.
pub fn quiet() { unsafe { QUIET = true } }
#[inline(always)]
pub fn observe(v: u64) { unsafe { sym_observe(v) } }
#[inline(always)]
pub fn reach(msg: &'static str) { unsafe { sym_reach(msg.as_ptr(), msg.len()) } }
#[inline(always)]
pub fn expect_panic(v: bool) { unsafe { sym_expect_panic(v as u32) } }
#[inline(always)]
pub fn alloc_limit(n: u64) { unsafe { sym_alloc_limit(n) } }
#[inline(always)]
pub fn thorough() -> bool { unsafe { sym_tier() != 0 } }
#[inline(always)]
pub fn live() -> u64 { unsafe { sym_live() } }
/// Split on the value of `v`, one path per feasible value.
#[inline(always)]
pub fn conc(v: u64) -> u64 { unsafe { sym_conc(v) } }
/// All bytes behind the slice must be initialised memory.
#[inline(always)]
pub fn check_init<T>(s: &[T]) { unsafe { sym_is_init(s.as_ptr() as *const u8, core::mem::size_of_val(s)); } }
/// Fill the slice with fresh symbolic bytes.
#[inline(always)]
pub fn fill(s: &mut [u8]) { unsafe { sym_fill(s.as_mut_ptr(), s.len()) } }
/// Pick one of the listed values (case split).
#[inline(always)]
pub fn pick<T: Copy>(xs: &[T]) -> T { xs[choose(xs.len() as u32) as usize] }
