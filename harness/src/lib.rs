//! Harnesses for the solver-based checks of claxon. Every harness drives claxon's public interface.
#[cfg(feature = "native")]
pub mod native;
pub mod sym;
pub mod util;
pub mod file;

macro_rules! harnesses {
    ($($m:ident : $($f:ident),* ;)*) => {
        $(pub mod $m;)*
        $($(#[cfg(not(feature = "native"))] #[no_mangle] pub extern "C" fn $f() { $m::$f() })*)*
        /// All harnesses by name.
        pub fn lookup(n: &str) -> Option<fn()> { $($(if n == stringify!($f) { return Some($m::$f); })*)* None }
    };
}
harnesses! {
    bitio: c02_mixed, c02_unary, c02_eof, c02_three;
    byteio: c03_cursor, c03_cursor_far, c03_cursor_long, c03_pieces, c03_boundary, c03_long, c03_faults, c03_liar;
    robust: c01_subframe, c01_frame, c01_header, c01_meta, c01_stream, c01_lpc, c01_fixed, c01_stereo, c01_reader;
    frames: c04_sync, c04_codes, c04_blocksize, c04_fields, c05_number, c05_malformed, c05_stream, c06_header, c06_frame, c06_burst, c06_second, c06_long, c12_layout, c12_buffer, c12_sequence, c12_long;
    subs: c07_constant, c07_verbatim, c07_wasted, c07_header, c07_frame, c07_long, c08_fixed, c08_too_short, c08_long, c09_extreme, c09_orders, c09_coefs, c09_free, c09_params, c09_wide, c09_invalid, c09_long, c10_params, c10_partitions, c10_large, c10_refused, c10_quotients, c11_lossless, c11_values, c11_long;
    blocks: c13_access, c13_index, c13_stereo, c13_panics, c13_empty, c13_long, c14_order, c14_error, c14_resume, c14_coded, c14_long, c14_many;
    meta: c15_fields, c15_length, c15_truncated, c16_arbitrary, c16_structured, c16_utf8, c16_names, c16_lengths, c17_types, c17_skip, c17_application, c17_iterate, c17_failures, c18_announced, c18_open, c18_comment, c18_frame, c18_reuse, c19_marker, c19_options, c19_lazy, c19_default, c21_lookup, c21_case, c21_pairs, c21_stream;
    quiet: c01_c02_unary, c01_c03_pieces, c01_c03_boundary, c01_c03_far, c01_c03_liar, c01_c04_codes, c01_c04_blocksize, c01_c05_number, c01_c05_malformed, c01_c05_many, c01_c06_second, c01_c07_wasted, c01_c07_header, c01_c07_frame, c01_c07_long, c01_c08_fixed, c01_c08_too_short, c01_c08_long, c01_c09_params, c01_c09_invalid, c01_c09_long, c01_c10_params, c01_c10_partitions, c01_c10_large, c01_c10_refused, c01_c10_quotients, c01_c11_values, c01_c11_long, c01_c12_buffer, c01_c12_long, c01_c12_follow, c01_c13_long, c01_c13_hint, c01_c14_error, c01_c14_resume, c01_c14_long, c01_c14_many, c01_c14_hint, c01_c15_truncated, c01_c16_structured, c01_c16_utf8, c01_c16_long, c01_c16_many, c01_c16_free, c01_c16_wide, c01_c17_failures, c01_c17_large, c01_c17_many, c01_c18_samples, c01_c19_prefix, c01_c19_inner, c01_c20_prefix, c01_c20_samples, c01_c20_subframe, c01_c20_trailing, c01_c21_case, c01_c21_pairs, c01_c21_long, c01_c21_free, c01_c22_long, c01_c23_boundary, c01_c23_layout, c01_c23_meta, c01_c24_shown, c01_c24_text;
    trunc: c20_prefix, c20_samples, c20_fault, c20_subframe;
    more: c03_far, c05_many, c07_extend, c13_hint, c14_hint, c16_long, c16_many, c17_large, c17_many, c19_open, c19_missing, c19_inner, c21_hint, c21_long, c24_equal, c24_shown, c24_source, c24_text;
    deep: c12_follow, c16_free, c16_wide, c18_samples, c19_prefix, c20_deep, c20_trailing, c21_free;
    adapt: c13_adapt, c14_adapt, c17_adapt, c21_adapt;
    e2e: c22_modes, c22_mixed, c22_predictors, c22_long, c23_pieces, c23_boundary, c23_options, c23_layout, c23_meta, c23_apart;
}
