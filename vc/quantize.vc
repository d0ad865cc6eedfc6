@@module quantize src/vpx/math/quantize.rs
@@broadcast
@@fn quantize_unsigned
@@external
    requires BITS == 8 ==> q8_ok(x),
    ensures BITS == 8 ==> r == q8(x),
@@fn dequantize_unsigned
@@external
    ensures BITS == 8 ==> r == dq8(i),
@@extra
/// the 8-bit quantisation the functions above compute (their arithmetic is decided by P07)
pub uninterp spec fn q8(x: f32) -> u32;
pub uninterp spec fn dq8(i: u32) -> f32;
pub uninterp spec fn q8_ok(x: f32) -> bool;
/// values that survive 8-bit quantisation
pub open spec fn q8_valid(x: f32) -> bool { q8_ok(x) && dq8(q8(x)) == x }
