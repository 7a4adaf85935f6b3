//! C01 over the inputs of the other properties: whatever else is demanded there, here it is only that nothing panics,
//! overflows, reads what is not there, asks for too much, or fails to end.
use crate::sym::quiet;
macro_rules! quiet { ($($n:ident = $m:ident :: $f:ident;)*) => { $(pub fn $n() { quiet(); crate::$m::$f() })* } }
quiet! {
    c01_c02_unary = bitio::c02_unary;
    c01_c03_pieces = byteio::c03_pieces;
    c01_c03_boundary = byteio::c03_boundary;
    c01_c03_far = more::c03_far;
    c01_c03_liar = byteio::c03_liar;
    c01_c04_codes = frames::c04_codes;
    c01_c04_blocksize = frames::c04_blocksize;
    c01_c05_number = frames::c05_number;
    c01_c05_malformed = frames::c05_malformed;
    c01_c05_many = more::c05_many;
    c01_c06_second = frames::c06_second;
    c01_c07_wasted = subs::c07_wasted;
    c01_c07_header = subs::c07_header;
    c01_c07_frame = subs::c07_frame;
    c01_c07_long = subs::c07_long;
    c01_c08_fixed = subs::c08_fixed;
    c01_c08_too_short = subs::c08_too_short;
    c01_c08_long = subs::c08_long;
    c01_c09_params = subs::c09_params;
    c01_c09_invalid = subs::c09_invalid;
    c01_c09_long = subs::c09_long;
    c01_c10_params = subs::c10_params;
    c01_c10_partitions = subs::c10_partitions;
    c01_c10_large = subs::c10_large;
    c01_c10_refused = subs::c10_refused;
    c01_c10_quotients = subs::c10_quotients;
    c01_c11_values = subs::c11_values;
    c01_c11_long = subs::c11_long;
    c01_c12_buffer = frames::c12_buffer;
    c01_c12_long = frames::c12_long;
    c01_c12_follow = deep::c12_follow;
    c01_c13_long = blocks::c13_long;
    c01_c13_hint = more::c13_hint;
    c01_c14_error = blocks::c14_error;
    c01_c14_resume = blocks::c14_resume;
    c01_c14_long = blocks::c14_long;
    c01_c14_many = blocks::c14_many;
    c01_c14_hint = more::c14_hint;
    c01_c15_truncated = meta::c15_truncated;
    c01_c16_structured = meta::c16_structured;
    c01_c16_utf8 = meta::c16_utf8;
    c01_c16_long = more::c16_long;
    c01_c16_many = more::c16_many;
    c01_c16_free = deep::c16_free;
    c01_c16_wide = deep::c16_wide;
    c01_c17_failures = meta::c17_failures;
    c01_c17_large = more::c17_large;
    c01_c17_many = more::c17_many;
    c01_c18_samples = deep::c18_samples;
    c01_c19_prefix = deep::c19_prefix;
    c01_c19_inner = more::c19_inner;
    c01_c20_prefix = trunc::c20_prefix;
    c01_c20_samples = trunc::c20_samples;
    c01_c20_subframe = trunc::c20_subframe;
    c01_c20_trailing = deep::c20_trailing;
    c01_c21_case = meta::c21_case;
    c01_c21_pairs = meta::c21_pairs;
    c01_c21_long = more::c21_long;
    c01_c21_free = deep::c21_free;
    c01_c22_long = e2e::c22_long;
    c01_c23_boundary = e2e::c23_boundary;
    c01_c23_layout = e2e::c23_layout;
    c01_c23_meta = e2e::c23_meta;
    c01_c24_shown = more::c24_shown;
    c01_c24_text = more::c24_text;
}
