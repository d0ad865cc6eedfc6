#![allow(unused, dead_code, non_snake_case, non_camel_case_types, unused_parens, unused_braces)]
#![feature(allocator_api)]
// ===== prelude: specification vocabulary and assumed contracts of external functions =====
use vstd::prelude::*;
#[allow(unused_imports)] pub use std::collections::{HashMap, HashSet};
#[allow(unused_imports)] use std::borrow::Cow;

verus! {
global size_of usize == 8;

// ---------------------------------------------------------------- little endian
#[verifier::opaque] pub open spec fn b16(x: u16) -> Seq<u8> { seq![((x >> 0) & 0xff) as u8, ((x >> 8) & 0xff) as u8] }
#[verifier::opaque] pub open spec fn le16(s: Seq<u8>) -> u16 { ((s[0] as u16) << 0) | ((s[1] as u16) << 8) }
pub open spec fn u16_at(d: Seq<u8>, i: int) -> u16 { le16(d.subrange(i, i + 2)) }
pub broadcast proof fn lemma_b16(x: u16)
    ensures (#[trigger] b16(x)).len() == 2, le16(b16(x)) == x,
{
    reveal(b16); reveal(le16);
    assert(((((x >> 0) & 0xff) as u8 as u16) << 0) | ((((x >> 8) & 0xff) as u8 as u16) << 8) == x) by (bit_vector);
}
pub proof fn lemma_le16(s: Seq<u8>)
    requires s.len() == 2,
    ensures b16(le16(s)) == s,
{
    reveal(b16); reveal(le16);
    let s0 = s[0];
    let s1 = s[1];
    let x = le16(s);
    assert(((((s0 as u16) << 0) | ((s1 as u16) << 8)) >> 0) & 0xff == s0 as u16) by (bit_vector);
    assert(((s0 as u16) as u8) == s0);
    assert(((((s0 as u16) << 0) | ((s1 as u16) << 8)) >> 8) & 0xff == s1 as u16) by (bit_vector);
    assert(((s1 as u16) as u8) == s1);
    assert(b16(x) =~= s);
}
#[verifier::opaque] pub open spec fn b32(x: u32) -> Seq<u8> { seq![((x >> 0) & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8] }
#[verifier::opaque] pub open spec fn le32(s: Seq<u8>) -> u32 { ((s[0] as u32) << 0) | ((s[1] as u32) << 8) | ((s[2] as u32) << 16) | ((s[3] as u32) << 24) }
pub open spec fn u32_at(d: Seq<u8>, i: int) -> u32 { le32(d.subrange(i, i + 4)) }
pub broadcast proof fn lemma_b32(x: u32)
    ensures (#[trigger] b32(x)).len() == 4, le32(b32(x)) == x,
{
    reveal(b32); reveal(le32);
    assert(((((x >> 0) & 0xff) as u8 as u32) << 0) | ((((x >> 8) & 0xff) as u8 as u32) << 8) | ((((x >> 16) & 0xff) as u8 as u32) << 16) | ((((x >> 24) & 0xff) as u8 as u32) << 24) == x) by (bit_vector);
}
pub proof fn lemma_le32(s: Seq<u8>)
    requires s.len() == 4,
    ensures b32(le32(s)) == s,
{
    reveal(b32); reveal(le32);
    let s0 = s[0];
    let s1 = s[1];
    let s2 = s[2];
    let s3 = s[3];
    let x = le32(s);
    assert(((((s0 as u32) << 0) | ((s1 as u32) << 8) | ((s2 as u32) << 16) | ((s3 as u32) << 24)) >> 0) & 0xff == s0 as u32) by (bit_vector);
    assert(((s0 as u32) as u8) == s0);
    assert(((((s0 as u32) << 0) | ((s1 as u32) << 8) | ((s2 as u32) << 16) | ((s3 as u32) << 24)) >> 8) & 0xff == s1 as u32) by (bit_vector);
    assert(((s1 as u32) as u8) == s1);
    assert(((((s0 as u32) << 0) | ((s1 as u32) << 8) | ((s2 as u32) << 16) | ((s3 as u32) << 24)) >> 16) & 0xff == s2 as u32) by (bit_vector);
    assert(((s2 as u32) as u8) == s2);
    assert(((((s0 as u32) << 0) | ((s1 as u32) << 8) | ((s2 as u32) << 16) | ((s3 as u32) << 24)) >> 24) & 0xff == s3 as u32) by (bit_vector);
    assert(((s3 as u32) as u8) == s3);
    assert(b32(x) =~= s);
}
#[verifier::opaque] pub open spec fn b64(x: u64) -> Seq<u8> { seq![((x >> 0) & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8, ((x >> 32) & 0xff) as u8, ((x >> 40) & 0xff) as u8, ((x >> 48) & 0xff) as u8, ((x >> 56) & 0xff) as u8] }
#[verifier::opaque] pub open spec fn le64(s: Seq<u8>) -> u64 { ((s[0] as u64) << 0) | ((s[1] as u64) << 8) | ((s[2] as u64) << 16) | ((s[3] as u64) << 24) | ((s[4] as u64) << 32) | ((s[5] as u64) << 40) | ((s[6] as u64) << 48) | ((s[7] as u64) << 56) }
pub open spec fn u64_at(d: Seq<u8>, i: int) -> u64 { le64(d.subrange(i, i + 8)) }
pub broadcast proof fn lemma_b64(x: u64)
    ensures (#[trigger] b64(x)).len() == 8, le64(b64(x)) == x,
{
    reveal(b64); reveal(le64);
    assert(((((x >> 0) & 0xff) as u8 as u64) << 0) | ((((x >> 8) & 0xff) as u8 as u64) << 8) | ((((x >> 16) & 0xff) as u8 as u64) << 16) | ((((x >> 24) & 0xff) as u8 as u64) << 24) | ((((x >> 32) & 0xff) as u8 as u64) << 32) | ((((x >> 40) & 0xff) as u8 as u64) << 40) | ((((x >> 48) & 0xff) as u8 as u64) << 48) | ((((x >> 56) & 0xff) as u8 as u64) << 56) == x) by (bit_vector);
}
pub proof fn lemma_le64(s: Seq<u8>)
    requires s.len() == 8,
    ensures b64(le64(s)) == s,
{
    reveal(b64); reveal(le64);
    let s0 = s[0];
    let s1 = s[1];
    let s2 = s[2];
    let s3 = s[3];
    let s4 = s[4];
    let s5 = s[5];
    let s6 = s[6];
    let s7 = s[7];
    let x = le64(s);
    assert(((((s0 as u64) << 0) | ((s1 as u64) << 8) | ((s2 as u64) << 16) | ((s3 as u64) << 24) | ((s4 as u64) << 32) | ((s5 as u64) << 40) | ((s6 as u64) << 48) | ((s7 as u64) << 56)) >> 0) & 0xff == s0 as u64) by (bit_vector);
    assert(((s0 as u64) as u8) == s0);
    assert(((((s0 as u64) << 0) | ((s1 as u64) << 8) | ((s2 as u64) << 16) | ((s3 as u64) << 24) | ((s4 as u64) << 32) | ((s5 as u64) << 40) | ((s6 as u64) << 48) | ((s7 as u64) << 56)) >> 8) & 0xff == s1 as u64) by (bit_vector);
    assert(((s1 as u64) as u8) == s1);
    assert(((((s0 as u64) << 0) | ((s1 as u64) << 8) | ((s2 as u64) << 16) | ((s3 as u64) << 24) | ((s4 as u64) << 32) | ((s5 as u64) << 40) | ((s6 as u64) << 48) | ((s7 as u64) << 56)) >> 16) & 0xff == s2 as u64) by (bit_vector);
    assert(((s2 as u64) as u8) == s2);
    assert(((((s0 as u64) << 0) | ((s1 as u64) << 8) | ((s2 as u64) << 16) | ((s3 as u64) << 24) | ((s4 as u64) << 32) | ((s5 as u64) << 40) | ((s6 as u64) << 48) | ((s7 as u64) << 56)) >> 24) & 0xff == s3 as u64) by (bit_vector);
    assert(((s3 as u64) as u8) == s3);
    assert(((((s0 as u64) << 0) | ((s1 as u64) << 8) | ((s2 as u64) << 16) | ((s3 as u64) << 24) | ((s4 as u64) << 32) | ((s5 as u64) << 40) | ((s6 as u64) << 48) | ((s7 as u64) << 56)) >> 32) & 0xff == s4 as u64) by (bit_vector);
    assert(((s4 as u64) as u8) == s4);
    assert(((((s0 as u64) << 0) | ((s1 as u64) << 8) | ((s2 as u64) << 16) | ((s3 as u64) << 24) | ((s4 as u64) << 32) | ((s5 as u64) << 40) | ((s6 as u64) << 48) | ((s7 as u64) << 56)) >> 40) & 0xff == s5 as u64) by (bit_vector);
    assert(((s5 as u64) as u8) == s5);
    assert(((((s0 as u64) << 0) | ((s1 as u64) << 8) | ((s2 as u64) << 16) | ((s3 as u64) << 24) | ((s4 as u64) << 32) | ((s5 as u64) << 40) | ((s6 as u64) << 48) | ((s7 as u64) << 56)) >> 48) & 0xff == s6 as u64) by (bit_vector);
    assert(((s6 as u64) as u8) == s6);
    assert(((((s0 as u64) << 0) | ((s1 as u64) << 8) | ((s2 as u64) << 16) | ((s3 as u64) << 24) | ((s4 as u64) << 32) | ((s5 as u64) << 40) | ((s6 as u64) << 48) | ((s7 as u64) << 56)) >> 56) & 0xff == s7 as u64) by (bit_vector);
    assert(((s7 as u64) as u8) == s7);
    assert(b64(x) =~= s);
}
// bit patterns of signed integers and floats.  Signed: two's complement casts.
// Floats: an uninterpreted bijection with the 32/64-bit patterns (f32::to_bits/from_bits).
// (defined through a cast because Verus gives no type fact for the fields of an all-float struct)
pub uninterp spec fn f32_nat(x: f32) -> int;
pub open spec fn f32_bits(x: f32) -> u32 { f32_nat(x) as u32 }
pub uninterp spec fn f32_of_bits(b: u32) -> f32;
pub uninterp spec fn f64_nat(x: f64) -> int;
pub open spec fn f64_bits(x: f64) -> u64 { f64_nat(x) as u64 }
pub uninterp spec fn f64_of_bits(b: u64) -> f64;
pub broadcast axiom fn axiom_f32_bits(x: f32) ensures #[trigger] f32_of_bits(f32_bits(x)) == x;
pub broadcast axiom fn axiom_f64_bits(x: f64) ensures #[trigger] f64_of_bits(f64_bits(x)) == x;

pub proof fn lemma_le32_zero_iff(s: Seq<u8>)
    requires s.len() == 4,
    ensures (le32(s) == 0) <==> (s == seq![0u8, 0u8, 0u8, 0u8]),
{
    let z = seq![0u8, 0u8, 0u8, 0u8];
    assert(b32(0) =~= z) by {
        reveal(b32);
        assert((0u32 >> 0) & 0xff == 0 && (0u32 >> 8) & 0xff == 0 && (0u32 >> 16) & 0xff == 0 && (0u32 >> 24) & 0xff == 0) by (bit_vector);
    }
    lemma_b32(0);
    lemma_le32(s);
    lemma_le32(z);
}

// ---------------------------------------------------------------- owned containers as values
pub uninterp spec fn mk_string(s: Seq<char>) -> String;
pub uninterp spec fn mk_vec<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn axiom_mk_string(x: String) ensures mk_string(#[trigger] x@) == x;
pub broadcast axiom fn axiom_mk_string_view(s: Seq<char>) ensures (#[trigger] mk_string(s))@ == s;
pub broadcast axiom fn axiom_mk_vec<T>(x: Vec<T>) ensures mk_vec::<T>(#[trigger] x@) == x;
/// a sequence no longer than that of an existing vector is the view of some vector
pub axiom fn axiom_mk_vec_shorter<T>(s: Seq<T>, x: Vec<T>) requires s.len() <= x@.len(), ensures mk_vec::<T>(s)@ == s;
pub broadcast axiom fn axiom_vec_len(x: Vec<u8>) ensures (#[trigger] x@).len() <= isize::MAX;

// ---------------------------------------------------------------- shims (assumed contracts of std / crates)
pub trait VLe: Sized {
    spec fn le_spec(self) -> Seq<u8>;
    fn v_to_le_bytes2(self) -> (r: Vec<u8>) ensures r@ == self.le_spec();
}
pub trait VLe4: Sized {
    spec fn le4_spec(self) -> Seq<u8>;
    fn v_to_le_bytes(&self) -> (r: [u8; 4]) ensures r@ == self.le4_spec();
}
impl VLe4 for u32 {
    open spec fn le4_spec(self) -> Seq<u8> { b32(self) }
    #[verifier::external_body] fn v_to_le_bytes(&self) -> (r: [u8; 4]) { self.to_le_bytes() }
}
impl VLe4 for i32 {
    open spec fn le4_spec(self) -> Seq<u8> { b32(self as u32) }
    #[verifier::external_body] fn v_to_le_bytes(&self) -> (r: [u8; 4]) { self.to_le_bytes() }
}
impl VLe4 for f32 {
    open spec fn le4_spec(self) -> Seq<u8> { b32(f32_bits(self)) }
    #[verifier::external_body] fn v_to_le_bytes(&self) -> (r: [u8; 4]) { self.to_le_bytes() }
}
pub struct V2(pub u8, pub u8);
pub trait VLe2: Sized {
    spec fn le2_spec(self) -> Seq<u8>;
    fn v_to_le_bytes(&self) -> (r: [u8; 2]) ensures r@ == self.le2_spec();
}
impl VLe2 for u16 {
    open spec fn le2_spec(self) -> Seq<u8> { b16(self) }
    #[verifier::external_body] fn v_to_le_bytes(&self) -> (r: [u8; 2]) { self.to_le_bytes() }
}
impl VLe2 for i16 {
    open spec fn le2_spec(self) -> Seq<u8> { b16(self as u16) }
    #[verifier::external_body] fn v_to_le_bytes(&self) -> (r: [u8; 2]) { self.to_le_bytes() }
}
pub trait VNan { fn v_is_nan(&self) -> bool; }
pub uninterp spec fn f32_nan(x: f32) -> bool;
impl VNan for f32 { #[verifier::external_body] fn v_is_nan(&self) -> (r: bool) ensures r == f32_nan(*self) { self.is_nan() } }

pub trait VToString { spec fn ts_spec(&self) -> Seq<char>; fn v_to_string(&self) -> (r: String) ensures r@ == self.ts_spec(); }
impl VToString for str {
    open spec fn ts_spec(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_to_string(&self) -> (r: String) { self.to_string() }
}
impl VToString for String {
    open spec fn ts_spec(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_to_string(&self) -> (r: String) { self.to_string() }
}
pub trait VToOwned { type O; spec fn to_spec(&self, r: Self::O) -> bool; fn v_to_owned(&self) -> (r: Self::O) ensures self.to_spec(r); }
impl VToOwned for str {
    type O = String;
    open spec fn to_spec(&self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body] fn v_to_owned(&self) -> (r: String) { self.to_owned() }
}
impl VToOwned for String {
    type O = String;
    open spec fn to_spec(&self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body] fn v_to_owned(&self) -> (r: String) { self.to_owned() }
}
impl VToOwned for u32 {
    type O = u32;
    open spec fn to_spec(&self, r: u32) -> bool { r == *self }
    fn v_to_owned(&self) -> (r: u32) { *self }
}
impl VToOwned for [u8] {
    type O = Vec<u8>;
    open spec fn to_spec(&self, r: Vec<u8>) -> bool { r@ == self@ }
    #[verifier::external_body] fn v_to_owned(&self) -> (r: Vec<u8>) { self.to_owned() }
}
pub trait VCloneInto { fn v_clone_into(&self, t: &mut Vec<u8>); }
impl VCloneInto for [u8] {
    #[verifier::external_body] fn v_clone_into(&self, t: &mut Vec<u8>) ensures final(t)@ == self@ { self.clone_into(t) }
}
pub trait VStrEq { spec fn se_spec(&self) -> Seq<char>; fn v_eq(&self, b: &str) -> (r: bool) ensures r == (self.se_spec() == b@); }
impl VStrEq for str {
    open spec fn se_spec(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_eq(&self, b: &str) -> (r: bool) { self == b }
}
impl VStrEq for String {
    open spec fn se_spec(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_eq(&self, b: &str) -> (r: bool) { self == b }
}
impl<'a, T: VStrEq + ?Sized> VStrEq for &'a T {
    open spec fn se_spec(&self) -> Seq<char> { (**self).se_spec() }
    fn v_eq(&self, b: &str) -> (r: bool) { (**self).v_eq(b) }
}
pub fn v_str_eq<T: VStrEq + ?Sized>(a: &T, b: &str) -> (r: bool) ensures r == (a.se_spec() == b@) { a.v_eq(b) }
pub trait VToUsize { spec fn us_spec(&self) -> int; fn v_to_usize(&self) -> (r: usize) ensures r as int == self.us_spec(); }
impl VToUsize for u32 {
    open spec fn us_spec(&self) -> int { *self as int }
    #[verifier::external_body] fn v_to_usize(&self) -> (r: usize) { *self as usize }
}
impl VToUsize for u8 {
    open spec fn us_spec(&self) -> int { *self as int }
    #[verifier::external_body] fn v_to_usize(&self) -> (r: usize) { *self as usize }
}
/// std's next multiple, and numbers from their little-endian bytes
pub trait VNextMul: Sized { spec fn nm_pre(self, n: Self) -> bool; fn v_next_multiple_of(self, n: Self) -> (r: Self) requires self.nm_pre(n); }
impl VNextMul for u64 {
    open spec fn nm_pre(self, n: u64) -> bool { n > 0 && self + n <= u64::MAX }
    fn v_next_multiple_of(self, n: u64) -> (r: u64) ensures r == (if self % n == 0 { self as int } else { self + n - self % n }) { if self % n == 0 { self } else { self + (n - self % n) } }
}
#[verifier::external_body] pub fn v_u16_from_le(b: [u8; 2]) -> (r: u16) ensures r == u16_at(b@, 0) { u16::from_le_bytes(b) }
#[verifier::external_body] pub fn v_u32_from_le(b: [u8; 4]) -> (r: u32) ensures r == u32_at(b@, 0) { u32::from_le_bytes(b) }
pub trait VAsDeref { spec fn ad_spec(&self) -> Option<Seq<char>>; fn v_as_deref(&self) -> (r: Option<&str>) ensures (r is Some) == (self.ad_spec() is Some), r is Some ==> r->0@ == self.ad_spec()->0; }
impl VAsDeref for Option<String> {
    open spec fn ad_spec(&self) -> Option<Seq<char>> { match self { Some(s) => Some(s@), None => None } }
    #[verifier::external_body] fn v_as_deref(&self) -> (r: Option<&str>) { self.as_deref() }
}

#[verifier::external_body]
pub fn v_panic() -> (r: !) requires false { panic!() }
pub fn v_require(b: bool) requires b { }
/// format!, one piece at a time; a number's text is its decimal digits
pub uninterp spec fn dec_text(n: int) -> Seq<char>;
pub trait VDisp { spec fn disp(&self) -> Seq<char>; fn v_disp(&self) -> (r: String) ensures r@ == self.disp(); }
impl VDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_disp(&self) -> (r: String) { unimplemented!() } }
impl VDisp for usize { open spec fn disp(&self) -> Seq<char> { dec_text(*self as int) } #[verifier::external_body] fn v_disp(&self) -> (r: String) { unimplemented!() } }
impl VDisp for u32 { open spec fn disp(&self) -> Seq<char> { dec_text(*self as int) } #[verifier::external_body] fn v_disp(&self) -> (r: String) { unimplemented!() } }
impl VDisp for i32 { open spec fn disp(&self) -> Seq<char> { dec_text(*self as int) } #[verifier::external_body] fn v_disp(&self) -> (r: String) { unimplemented!() } }
impl<'a> VDisp for &'a str { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_disp(&self) -> (r: String) { unimplemented!() } }
impl<'a> VDisp for &'a String { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_disp(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn v_fmt_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
pub trait VFmt: Sized {
    fn v_fmt_lit(self, s: &str) -> (r: String);
    fn v_fmt_arg<T: VDisp>(self, x: &T) -> (r: String);
}
impl VFmt for String {
    #[verifier::external_body] fn v_fmt_lit(self, s: &str) -> (r: String) ensures r@ == self@ + s@ { unimplemented!() }
    #[verifier::external_body] fn v_fmt_arg<T: VDisp>(self, x: &T) -> (r: String) ensures r@ == self@ + x.disp() { unimplemented!() }
}

pub mod nom {
    use super::*;
    #[derive(Debug)]
    pub enum Err<E> { Incomplete, Error(E), Failure(E) }
}
pub use nom::Err as NomErr;
#[verifier::external_body]
pub fn le_u16<'a>(d: &'a [u8]) -> (r: Result<(&'a [u8], u16), nom::Err<()>>)
    ensures d@.len() >= 2 ==> r is Ok && r->Ok_0.1 == u16_at(d@, 0) { unimplemented!() }
#[verifier::external_body]
pub fn le_u32<'a>(d: &'a [u8]) -> (r: Result<(&'a [u8], u32), nom::Err<()>>)
    ensures d@.len() >= 4 ==> r is Ok && r->Ok_0.1 == u32_at(d@, 0) { unimplemented!() }
#[verifier::external_body]
pub fn le_u64<'a>(d: &'a [u8]) -> (r: Result<(&'a [u8], u64), nom::Err<()>>)
    ensures d@.len() >= 8 ==> r is Ok && r->Ok_0.1 == u64_at(d@, 0) { unimplemented!() }
#[verifier::external_body]
pub fn le_i16<'a>(d: &'a [u8]) -> (r: Result<(&'a [u8], i16), nom::Err<()>>)
    ensures d@.len() >= 2 ==> r is Ok && r->Ok_0.1 == u16_at(d@, 0) as i16 { unimplemented!() }
#[verifier::external_body]
pub fn le_i32<'a>(d: &'a [u8]) -> (r: Result<(&'a [u8], i32), nom::Err<()>>)
    ensures d@.len() >= 4 ==> r is Ok && r->Ok_0.1 == u32_at(d@, 0) as i32 { unimplemented!() }
#[verifier::external_body]
pub fn le_i64<'a>(d: &'a [u8]) -> (r: Result<(&'a [u8], i64), nom::Err<()>>)
    ensures d@.len() >= 8 ==> r is Ok && r->Ok_0.1 == u64_at(d@, 0) as i64 { unimplemented!() }
#[verifier::external_body]
pub fn le_f32<'a>(d: &'a [u8]) -> (r: Result<(&'a [u8], f32), nom::Err<()>>)
    ensures d@.len() >= 4 ==> r is Ok && r->Ok_0.1 == f32_of_bits(u32_at(d@, 0)) { unimplemented!() }
#[verifier::external_body]
pub fn le_f64<'a>(d: &'a [u8]) -> (r: Result<(&'a [u8], f64), nom::Err<()>>)
    ensures d@.len() >= 8 ==> r is Ok && r->Ok_0.1 == f64_of_bits(u64_at(d@, 0)) { unimplemented!() }

// ---------------------------------------------------------------- latin1
#[verifier::opaque] pub open spec fn is_latin1(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 255 }
#[verifier::opaque] pub open spec fn no_nul(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 != 0 }
pub open spec fn latin1_enc(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
pub open spec fn latin1_dec(s: Seq<u8>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i] as char) }
#[verifier::external_body]
pub fn decode_latin1(d: &[u8]) -> (r: String) ensures r@ == latin1_dec(d@) { unimplemented!() }
#[verifier::external_body]
pub fn encode_latin1_lossy(s: &str) -> (r: Vec<u8>) ensures is_latin1(s@) ==> r@ == latin1_enc(s@) { unimplemented!() }
pub proof fn lemma_latin1(s: Seq<char>)
    requires is_latin1(s),
    ensures latin1_dec(latin1_enc(s)) == s, latin1_enc(s).len() == s.len(),
        no_nul(s) ==> forall|i: int| 0 <= i < s.len() ==> latin1_enc(s)[i] != 0,
{
    reveal(is_latin1); reveal(no_nul);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] latin1_dec(latin1_enc(s))[i]) == s[i] by {
        let c = s[i];
        assert(c as u32 <= 255);
        assert((c as u8) as char == c);
    }
    assert(latin1_dec(latin1_enc(s)) =~= s);
}

// first NUL cut
pub open spec fn until0(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 || s[0] == 0 { Seq::empty() } else { seq![s[0]] + until0(s.skip(1)) }
}
pub proof fn lemma_until0(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] != 0, k == s.len() || s[k] == 0,
    ensures until0(s) == s.take(k),
    decreases s.len(),
{
    if k == 0 { assert(s.take(0) =~= Seq::empty()); }
    else {
        lemma_until0(s.skip(1), k - 1);
        assert(s.take(k) =~= seq![s[0]] + s.skip(1).take(k - 1));
    }
}

// ---------------------------------------------------------------- record tags
#[verifier::opaque] pub open spec fn tag_ok(t: Seq<char>) -> bool {
    1 <= t.len() <= 4 && forall|i: int| 0 <= i < t.len() ==> 1 <= (#[trigger] t[i]) as u32 <= 127
}
pub open spec fn tag_bytes(t: Seq<char>) -> Seq<u8> { Seq::new(4, |i: int| if i < t.len() { t[i] as u8 } else { 0u8 }) }
pub open spec fn tch(t: Seq<char>, i: int) -> int { if i < t.len() { t[i] as u32 as int } else { 0 } }
/// injective numeric code of a tag string
#[verifier::opaque] pub open spec fn code_of(t: Seq<char>) -> int {
    if t.len() <= 4 { tch(t, 0) + 0x100_0000 * tch(t, 1) + 0x1_0000_0000_0000 * tch(t, 2) + 0x100_0000_0000_0000_0000 * tch(t, 3) } else { -1 }
}
#[verifier::opaque] pub open spec fn tag_plain(t: Seq<char>) -> bool {
    t.len() <= 4 && forall|i: int| 0 <= i < t.len() ==> 1 <= (#[trigger] t[i]) as u32 <= 255
}
pub proof fn lemma_code_inj(a: Seq<char>, b: Seq<char>)
    requires tag_plain(a), tag_plain(b), code_of(a) == code_of(b),
    ensures a == b,
{
    reveal(code_of); reveal(tag_plain);
    assert(tch(a,0) == tch(b,0) && tch(a,1) == tch(b,1) && tch(a,2) == tch(b,2) && tch(a,3) == tch(b,3)) by {
        assert(0 <= tch(a,0) <= 255 && 0 <= tch(a,1) <= 255 && 0 <= tch(a,2) <= 255 && 0 <= tch(a,3) <= 255);
        assert(0 <= tch(b,0) <= 255 && 0 <= tch(b,1) <= 255 && 0 <= tch(b,2) <= 255 && 0 <= tch(b,3) <= 255);
    }
    assert(a.len() == b.len()) by {
        assert(forall|i: int| 0 <= i < 4 ==> (tch(a, i) == 0 <==> i >= a.len())) by { }
        if a.len() < b.len() { assert(tch(a, a.len() as int) == 0); assert(tch(b, a.len() as int) != 0); 
            let k = a.len(); assert(k == 0 || k == 1 || k == 2 || k == 3); }
        if b.len() < a.len() { assert(tch(b, b.len() as int) == 0); assert(tch(a, b.len() as int) != 0);
            let k = b.len(); assert(k == 0 || k == 1 || k == 2 || k == 3); }
    }
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert(tch(a, i) == tch(b, i)) by { assert(i == 0 || i == 1 || i == 2 || i == 3); }
    }
    assert(a =~= b);
}
/// `a == b` on strings, as used for record tags
pub fn tag_is(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@), tag_plain(a@) && tag_plain(b@) ==> (r == (code_of(a@) == code_of(b@))),
{
    proof { if tag_plain(a@) && tag_plain(b@) && code_of(a@) == code_of(b@) { lemma_code_inj(a@, b@); } }
    a == b
}


// ---------------------------------------------------------------- sequence algebra
pub broadcast proof fn lemma_sub_sub(s: Seq<u8>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a,
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d),
{ assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
pub broadcast proof fn lemma_skip_as_sub(s: Seq<u8>, a: int)
    requires 0 <= a <= s.len(),
    ensures #[trigger] s.skip(a) == s.subrange(a, s.len() as int),
{ assert(s.skip(a) =~= s.subrange(a, s.len() as int)); }
pub broadcast proof fn lemma_take_as_sub(s: Seq<u8>, a: int)
    requires 0 <= a <= s.len(),
    ensures #[trigger] s.take(a) == s.subrange(0, a),
{ assert(s.take(a) =~= s.subrange(0, a)); }
pub broadcast proof fn lemma_sub_full(s: Seq<u8>, b: int)
    requires b == s.len(),
    ensures #[trigger] s.subrange(0, b) == s,
{ assert(s.subrange(0, b) =~= s); }
pub broadcast axiom fn axiom_slice_len(x: &[u8]) ensures (#[trigger] x@).len() <= isize::MAX;
pub broadcast group vpin_seq { lemma_sub_sub, lemma_skip_as_sub, lemma_take_as_sub, lemma_sub_full, axiom_slice_len }
// ---------------------------------------------------------------- records
pub open spec fn rec_len(d: Seq<u8>) -> int { u32_at(d, 0) as int }
pub open spec fn rec_ok(d: Seq<u8>) -> bool { d.len() >= 8 && 4 <= rec_len(d) && 4 + rec_len(d) <= d.len() && d[4] != 0 }
pub open spec fn rec_tag(d: Seq<u8>) -> Seq<char> { latin1_dec(until0(d.subrange(4, 8))) }
pub open spec fn rec_payload(d: Seq<u8>) -> Seq<u8> { d.subrange(8, 4 + rec_len(d)) }
pub open spec fn rec_rest(d: Seq<u8>) -> Seq<u8> { d.skip(4 + rec_len(d)) }
#[verifier::opaque] pub open spec fn enc_rec(t: Seq<char>, p: Seq<u8>) -> Seq<u8> { b32((p.len() + 4) as u32) + tag_bytes(t) + p }
/// a record whose announced length does not cover the bytes that follow it
pub open spec fn enc_rec_nosize(t: Seq<char>, p: Seq<u8>) -> Seq<u8> { b32(4) + tag_bytes(t) + p }

pub proof fn lemma_until0_bound(s: Seq<u8>)
    ensures until0(s).len() <= s.len(), forall|i: int| #![trigger until0(s)[i]] 0 <= i < until0(s).len() ==> until0(s)[i] != 0 && until0(s)[i] == s[i],
        until0(s).len() == s.len() || s[until0(s).len() as int] == 0,
    decreases s.len(),
{
    if s.len() == 0 || s[0] == 0 { } else {
        lemma_until0_bound(s.skip(1));
        let u = until0(s.skip(1));
        let w = until0(s);
        assert(w == seq![s[0]] + u);
        assert forall|i: int| 0 <= i < w.len() implies w[i] != 0 && w[i] == s[i] by {
            if i > 0 { assert(w[i] == u[i - 1]); assert(u[i - 1] == s.skip(1)[i - 1]); }
        }
        assert(u.len() == s.skip(1).len() || s.skip(1)[u.len() as int] == s[u.len() as int + 1]);
    }
}
pub proof fn lemma_rec_tag_plain(d: Seq<u8>)
    requires d.len() >= 8, d[4] != 0,
    ensures tag_plain(rec_tag(d)), rec_tag(d).len() >= 1,
{
    reveal(tag_plain);
    let s = d.subrange(4, 8);
    lemma_until0_bound(s);
    assert(s[0] == d[4]);
    assert(rec_tag(d).len() == until0(s).len());
    assert forall|i: int| 0 <= i < rec_tag(d).len() implies 1 <= (#[trigger] rec_tag(d)[i]) as u32 <= 255 by {
        assert(rec_tag(d)[i] == until0(s)[i] as char);
        let b = until0(s)[i];
        assert(b != 0);
        assert(1 <= (b as char) as u32 <= 255);
    }
}
pub proof fn lemma_enc_rec(t: Seq<char>, p: Seq<u8>, r: Seq<u8>)
    requires tag_ok(t), p.len() + 4 <= u32::MAX,
    ensures ({ let d = enc_rec(t, p) + r; rec_ok(d) && rec_tag(d) == t && rec_payload(d) == p && rec_rest(d) == r }),
        enc_rec(t, p).len() == p.len() + 8,
{
    reveal(enc_rec);
    let d = enc_rec(t, p) + r;
    lemma_b32((p.len() + 4) as u32);
    assert(d.subrange(0, 4) =~= b32((p.len() + 4) as u32));
    assert(d.subrange(4, 8) =~= tag_bytes(t));
    lemma_tag_bytes(t);
    assert(d[4] == tag_bytes(t)[0]);
    assert(rec_payload(d) =~= p);
    assert(rec_rest(d) =~= r);
}
pub proof fn lemma_enc_rec_nosize(t: Seq<char>, p: Seq<u8>, r: Seq<u8>)
    requires tag_ok(t),
    ensures ({ let d = enc_rec_nosize(t, p) + r; rec_ok(d) && rec_tag(d) == t && rec_payload(d).len() == 0 && rec_rest(d) == p + r }),
{
    let d = enc_rec_nosize(t, p) + r;
    lemma_b32(4);
    assert(d.subrange(0, 4) =~= b32(4));
    assert(d.subrange(4, 8) =~= tag_bytes(t));
    lemma_tag_bytes(t);
    assert(d[4] == tag_bytes(t)[0]);
    assert(rec_rest(d) =~= p + r);
}
pub proof fn lemma_tag_bytes(t: Seq<char>)
    requires tag_ok(t),
    ensures latin1_dec(until0(tag_bytes(t))) == t, tag_bytes(t).len() == 4, tag_bytes(t)[0] != 0,
{
    reveal(tag_ok);
    let s = tag_bytes(t);
    assert forall|i: int| 0 <= i < t.len() implies s[i] != 0 && (s[i] as char) == t[i] by { assert(1 <= t[i] as u32 <= 127); }
    assert(1 <= t[0] as u32);
    lemma_until0(s, t.len() as int);
    assert(latin1_dec(s.take(t.len() as int)) =~= t);
}

pub broadcast axiom fn axiom_string_ascii_len(x: String) ensures (#[trigger] x@).len() <= isize::MAX;

// ---------------------------------------------------------------- slices
#[verifier::external_body]
pub fn v_slice_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { a == b }
/// X[a..b].copy_from_slice(s)
pub trait VCopy { 
    spec fn vc_seq(&self) -> Seq<u8>;
    fn v_copy_range(&mut self, a: usize, b: usize, s: &[u8]) requires a <= b <= old(self).vc_seq().len(), s@.len() == b - a,
        ensures final(self).vc_seq() == old(self).vc_seq().take(a as int) + s@ + old(self).vc_seq().skip(b as int);
    fn v_copy_tail(&mut self, a: usize, s: &[u8]) requires a <= old(self).vc_seq().len(), s@.len() == old(self).vc_seq().len() - a,
        ensures final(self).vc_seq() == old(self).vc_seq().take(a as int) + s@;
}
impl VCopy for Vec<u8> {
    open spec fn vc_seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_copy_range(&mut self, a: usize, b: usize, s: &[u8]) { self[a..b].copy_from_slice(s) }
    #[verifier::external_body] fn v_copy_tail(&mut self, a: usize, s: &[u8]) { self[a..].copy_from_slice(s) }
}
impl<const N: usize> VCopy for [u8; N] {
    open spec fn vc_seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_copy_range(&mut self, a: usize, b: usize, s: &[u8]) { self[a..b].copy_from_slice(s) }
    #[verifier::external_body] fn v_copy_tail(&mut self, a: usize, s: &[u8]) { self[a..].copy_from_slice(s) }
}
pub uninterp spec fn mk_arr<const N: usize>(s: Seq<u8>) -> [u8; N];
pub broadcast axiom fn axiom_mk_arr<const N: usize>(x: [u8; N]) ensures mk_arr::<N>(#[trigger] x@) == x;
pub axiom fn axiom_mk_arr_view<const N: usize>(s: Seq<u8>) requires s.len() == N, ensures mk_arr::<N>(s)@ == s;
pub trait VToVec { type V; spec fn tv_spec(&self) -> Seq<Self::V>; fn v_to_vec(&self) -> (r: Vec<Self::V>) ensures r@ == self.tv_spec(); }
impl VToVec for [u8] {
    type V = u8;
    open spec fn tv_spec(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
}
impl VToVec for Vec<u8> {
    type V = u8;
    open spec fn tv_spec(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_to_vec(&self) -> (r: Vec<u8>) { self.to_vec() }
}

/// bytes a slice iterator has not handed out yet
#[verifier::prophetic] pub open spec fn it_rem(it: &core::slice::Iter<u8>) -> Seq<u8> { vstd::std_specs::iter::IteratorSpec::remaining(it).map_values(|x: &u8| *x) }
#[verifier::prophetic] pub open spec fn it_ok(it: &core::slice::Iter<u8>) -> bool { vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(it) && vstd::std_specs::iter::IteratorSpec::decrease(it) is Some }
pub open spec fn it_dec(it: &core::slice::Iter<u8>) -> nat { vstd::std_specs::iter::IteratorSpec::decrease(it).unwrap_or(0) }
/// X.chunks_exact(n), as the list of its chunks
pub trait VChunks { spec fn ch_seq(&self) -> Seq<u8>; fn v_chunks_exact(&self, n: usize) -> (r: Vec<&[u8]>) requires n > 0, ensures r@.len() == self.ch_seq().len() / (n as nat), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.ch_seq().subrange(i * n, i * n + n); }
impl VChunks for [u8] {
    open spec fn ch_seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_chunks_exact(&self, n: usize) -> (r: Vec<&[u8]>) { self.chunks_exact(n).collect() }
}

// ---------------------------------------------------------------- UTF-16LE (src/vpx/utf16.rs: assumed, see DESIGN)
/// assumed: std's encode_utf16 and String::from_utf16, which inverts it
pub uninterp spec fn utf16_units(s: Seq<char>) -> Seq<u16>;
pub uninterp spec fn units_text(u: Seq<u16>) -> Option<Seq<char>>;
pub axiom fn axiom_units(s: Seq<char>) ensures units_text(utf16_units(s)) == Some(s);
/// the units' bytes, the low one first
pub open spec fn le_units(u: Seq<u16>) -> Seq<u8> decreases u.len() { if u.len() == 0 { Seq::empty() } else { le_units(u.drop_last()) + b16(u.last()) } }
pub open spec fn units_at(d: Seq<u8>) -> Seq<u16> { Seq::new(d.len() / 2, |i: int| u16_at(d, 2 * i)) }
pub proof fn lemma_le_units(u: Seq<u16>) ensures le_units(u).len() == 2 * u.len(), units_at(le_units(u)) == u decreases u.len() {
    broadcast use lemma_b16;
    if u.len() > 0 {
        let v = u.drop_last(); let x = u.last();
        lemma_le_units(v); lemma_b16(x);
        let d = le_units(v); let e = le_units(u);
        assert(e == d + b16(x));
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] units_at(e)[i] == u[i] by {
            if i < v.len() { assert(units_at(d)[i] == v[i]); assert(e.subrange(2 * i, 2 * i + 2) =~= d.subrange(2 * i, 2 * i + 2)); }
            else { assert(e.subrange(2 * i, 2 * i + 2) =~= b16(x)); }
        }
    }
    assert(units_at(le_units(u)) =~= u);
}
#[verifier::opaque] pub open spec fn utf16_enc(s: Seq<char>) -> Seq<u8> { le_units(utf16_units(s)) }
#[verifier::opaque] pub open spec fn utf16_dec(d: Seq<u8>) -> Seq<char> { units_text(units_at(d))->0 }
#[verifier::opaque] pub open spec fn utf16_ok(d: Seq<u8>) -> bool { d.len() % 2 == 0 && units_text(units_at(d)) is Some }
pub broadcast proof fn lemma_utf16(s: Seq<char>) ensures utf16_ok(#[trigger] utf16_enc(s)), utf16_dec(utf16_enc(s)) == s {
    reveal(utf16_enc); reveal(utf16_dec); reveal(utf16_ok); lemma_le_units(utf16_units(s)); axiom_units(s);
}
pub trait VUtf16 { spec fn u16_text(&self) -> Seq<char>; fn v_encode_utf16(&self) -> (r: Vec<u16>) ensures r@ == utf16_units(self.u16_text()); }
impl VUtf16 for str { open spec fn u16_text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_encode_utf16(&self) -> (r: Vec<u16>) { self.encode_utf16().collect() } }
#[verifier::external_body] pub fn v_string_from_utf16(u: &[u16]) -> (r: Result<String, VErr>) ensures r is Ok == units_text(u@) is Some, r is Ok ==> units_text(u@) == Some(r->Ok_0@) { unimplemented!() }
pub trait VMult { spec fn mult_of(&self, n: usize) -> bool; fn v_is_multiple_of(&self, n: usize) -> (r: bool) requires n > 0 ensures r == self.mult_of(n); }
impl VMult for usize { open spec fn mult_of(&self, n: usize) -> bool { *self % n == 0 } fn v_is_multiple_of(&self, n: usize) -> (r: bool) { *self % n == 0 } }
#[verifier::external_body] pub struct IoError(u8);
#[verifier::external_body]
pub fn decode_utf16le(d: &[u8]) -> (r: Result<String, VErr>) ensures r is Ok == utf16_ok(d@), r is Ok ==> r->Ok_0@ == utf16_dec(d@) { unimplemented!() }
#[verifier::external_body]
pub fn encode_utf16le(s: &str) -> (r: Vec<u8>) ensures r@ == utf16_enc(s@) { unimplemented!() }
#[derive(Debug)] pub struct VErr;

// ---------------------------------------------------------------- UTF-8
#[verifier::external_body]
pub fn v_string_from_utf8(v: Vec<u8>) -> (r: Result<String, VErr>)
    ensures vstd::utf8::valid_utf8(v@) ==> r is Ok && r->Ok_0@ == vstd::utf8::decode_utf8(v@), !vstd::utf8::valid_utf8(v@) ==> r is Err { unimplemented!() }
pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8]) ensures r@ == vstd::utf8::encode_utf8(s@);
pub assume_specification<T, A: core::alloc::Allocator>[ <Vec<T, A> as AsRef<[T]>>::as_ref ](v: &Vec<T, A>) -> (r: &[T]) ensures r@ == v@;
pub trait VIntoBytes { spec fn ib_spec(&self) -> Seq<u8>; fn v_into_bytes(self) -> (r: Vec<u8>) where Self: Sized ensures r@ == self.ib_spec(); }
impl VIntoBytes for String {
    open spec fn ib_spec(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) }
    #[verifier::external_body] fn v_into_bytes(self) -> (r: Vec<u8>) { self.into_bytes() }
}
/// x.into(): a conversion with an explicit precondition (the shipped From impls panic outside their domain)
pub trait VInto<T>: Sized {
    spec fn into_ok(self) -> bool;
    spec fn into_is(self, r: T) -> bool;
    fn v_into(self) -> (r: T) requires self.into_ok() ensures self.into_is(r);
}
impl VInto<Option<u32>> for u32 {
    open spec fn into_ok(self) -> bool { true }
    open spec fn into_is(self, r: Option<u32>) -> bool { r == Some(self) }
    #[verifier::external_body] fn v_into(self) -> (r: Option<u32>) { Some(self) }
}
// a byte string together with its encoding
pub open spec fn swe_of(d: Seq<u8>) -> (bool, Seq<char>) { if vstd::utf8::valid_utf8(d) { (true, vstd::utf8::decode_utf8(d)) } else { (false, latin1_dec(d)) } }
pub open spec fn swe_bytes_ok(v: (bool, Seq<char>)) -> bool { v.0 || is_latin1(v.1) }
pub open spec fn swe_bytes(v: (bool, Seq<char>)) -> Seq<u8> { if v.0 { vstd::utf8::encode_utf8(v.1) } else { latin1_enc(v.1) } }
pub open spec fn swe_canon(v: (bool, Seq<char>)) -> bool { v.0 || (is_latin1(v.1) && !vstd::utf8::valid_utf8(latin1_enc(v.1))) }
pub proof fn lemma_swe(v: (bool, Seq<char>))
    requires swe_canon(v),
    ensures swe_of(swe_bytes(v)) == v,
{
    if v.0 { vstd::utf8::encode_utf8_valid_utf8(v.1); vstd::utf8::encode_utf8_decode_utf8(v.1); } else { lemma_latin1(v.1); }
}
pub proof fn lemma_swe_bytes(d: Seq<u8>)
    ensures swe_bytes(swe_of(d)) == d, swe_canon(swe_of(d)),
{
    reveal(is_latin1);
    if vstd::utf8::valid_utf8(d) { vstd::utf8::decode_utf8_encode_utf8(d); } else {
        let s = latin1_dec(d);
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) as u32 <= 255 by { let b = d[i]; assert((b as char) as u32 <= 255); }
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] latin1_enc(s)[i]) == d[i] by { let b = d[i]; assert((b as char) as u8 == b); }
        assert(latin1_enc(s) =~= d);
    }
}
pub open spec fn utf8_bytes(t: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(t) }
pub broadcast proof fn lemma_u32_at_skip(s: Seq<u8>, a: int, o: int)
    requires 0 <= a <= s.len(), 0 <= o, a + o + 4 <= s.len(),
    ensures #[trigger] u32_at(s.skip(a), o) == u32_at(s, a + o),
{ assert(s.skip(a).subrange(o, o + 4) =~= s.subrange(a + o, a + o + 4)); }
pub broadcast proof fn lemma_b32_len(x: u32) ensures (#[trigger] b32(x)).len() == 4 { lemma_b32(x); }
#[verifier::external_body] pub fn v_any<T>() -> T { unimplemented!() }
pub fn v_min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }), { if a < b { a } else { b } }
pub broadcast group vpin_base { axiom_f32_bits, axiom_f64_bits, lemma_b16, lemma_b32, lemma_b64, axiom_mk_string, axiom_mk_string_view, axiom_mk_vec, axiom_vec_len }
pub broadcast group vpin_str { lemma_utf16, axiom_string_ascii_len }
} // verus!
