@@module bytes -
@@extra
/// assumed: crate bytes appends and takes little-endian numbers at the front
#[verifier::external_body]
pub struct BytesMut { v: Vec<u8> }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl BytesMut {
    #[verifier::external_body] pub fn new() -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn from(s: &[u8]) -> (r: BytesMut) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn put_u8(&mut self, x: u8) ensures final(self)@ == old(self)@ + seq![x] { unimplemented!() }
    #[verifier::external_body] pub fn put_u32_le(&mut self, x: u32) ensures final(self)@ == old(self)@ + b32(x) { unimplemented!() }
    #[verifier::external_body] pub fn put_f32_le(&mut self, x: f32) ensures final(self)@ == old(self)@ + b32(f32_bits(x)) { unimplemented!() }
    #[verifier::external_body] pub fn put_slice(&mut self, x: &[u8]) ensures final(self)@ == old(self)@ + x@ { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn put_u16_le(&mut self, x: u16) ensures final(self)@ == old(self)@ + b16(x) { unimplemented!() }
    #[verifier::external_body] pub fn get_u16_le(&mut self) -> (r: u16) requires old(self)@.len() >= 2 ensures r == u16_at(old(self)@, 0), final(self)@ == old(self)@.skip(2) { unimplemented!() }
    #[verifier::external_body] pub fn copy_to_slice<const N: usize>(&mut self, x: &mut [u8; N]) requires old(self)@.len() >= N ensures final(x)@ == old(self)@.take(N as int), final(self)@ == old(self)@.skip(N as int) { unimplemented!() }
    #[verifier::external_body] pub fn has_remaining(&self) -> (r: bool) ensures r == (self@.len() > 0) { unimplemented!() }
    #[verifier::external_body] pub fn get_u8(&mut self) -> (r: u8) requires old(self)@.len() >= 1 ensures r == old(self)@[0], final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body] pub fn get_u32_le(&mut self) -> (r: u32) requires old(self)@.len() >= 4 ensures r == u32_at(old(self)@, 0), final(self)@ == old(self)@.skip(4) { unimplemented!() }
    #[verifier::external_body] pub fn get_f32_le(&mut self) -> (r: f32) requires old(self)@.len() >= 4 ensures r == f32_of_bits(u32_at(old(self)@, 0)), final(self)@ == old(self)@.skip(4) { unimplemented!() }
    #[verifier::external_body] pub fn advance(&mut self, n: usize) requires old(self)@.len() >= n ensures final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn copy_to_bytes(&mut self, n: usize) -> (r: Vec<u8>) requires old(self)@.len() >= n ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, x: &[u8]) ensures final(self)@ == old(self)@ + x@ { unimplemented!() }
    #[verifier::external_body] pub fn remaining(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn split_to(&mut self, n: usize) -> (r: BytesMut) requires old(self)@.len() >= n ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn v_arr<const N: usize>(&self, a: usize, b: usize) -> (r: [u8; N]) requires a <= b <= self@.len(), b - a == N ensures r@ == self@.subrange(a as int, b as int) { unimplemented!() }
    #[verifier::external_body] pub fn v_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
impl core::ops::Deref for BytesMut { type Target = [u8]; #[verifier::external_body] fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }
/// assumed: std's CStr ends at the first NUL
pub struct NulError;
#[derive(Debug)]
pub struct Error;
#[verifier::external_body] pub fn v_io_error() -> (r: Error) { unimplemented!() }
/// assumed: std's array to slice
pub trait VAsSlice { spec fn bytes_v(&self) -> Seq<u8>; fn v_as_slice(&self) -> (r: &[u8]) ensures r@ == self.bytes_v(); }
impl<const N: usize> VAsSlice for [u8; N] { open spec fn bytes_v(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_as_slice(&self) -> (r: &[u8]) { self } }
impl VAsSlice for Vec<u8> { open spec fn bytes_v(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_as_slice(&self) -> (r: &[u8]) { self } }
pub trait VOkOrIo<T> { fn v_ok_or_io(self) -> (r: Result<T, Error>); }
impl<T> VOkOrIo<T> for Option<T> { fn v_ok_or_io(self) -> (r: Result<T, Error>) ensures r is Ok == self is Some, self is Some ==> r->Ok_0 == self->0 { match self { Some(x) => Ok(x), None => Err(v_io_error()) } } }
pub type IoResult<T> = Result<T, Error>;
pub trait VIoErr<T> { fn v_io_err(self) -> (r: Result<T, Error>); }
impl<T, E> VIoErr<T> for Result<T, E> {
    fn v_io_err(self) -> (r: Result<T, Error>) ensures r is Ok == self is Ok, self is Ok ==> r->Ok_0 == self->Ok_0 { match self { Ok(x) => Ok(x), Err(_) => Err(v_io_error()) } }
}
pub struct CStr { pub v: Vec<u8> }
impl CStr {
    #[verifier::external_body] pub fn from_bytes_until_nul(b: &Vec<u8>) -> (r: Result<CStr, NulError>) ensures r is Ok == b@.contains(0u8), r is Ok ==> r->Ok_0.v@ == until0(b@) { unimplemented!() }
    pub fn to_bytes(&self) -> (r: &[u8]) ensures r@ == self.v@ { self.v.as_slice() }
}
/// the owned form of text that was already copied
pub trait VOwned: Sized { fn into_owned(self) -> (r: Self); }
impl VOwned for Vec<u8> { fn into_owned(self) -> (r: Vec<u8>) ensures r@ == self@ { self } }
pub broadcast proof fn lemma_skip_skip(d: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= d.len(),
    ensures #[trigger] d.skip(a).skip(b) == d.skip(a + b),
{ assert(d.skip(a).skip(b) =~= d.skip(a + b)); }
pub broadcast proof fn lemma_u16_at_skip(s: Seq<u8>, a: int, o: int)
    requires 0 <= a, 0 <= o, a + o + 2 <= s.len(),
    ensures #[trigger] u16_at(s.skip(a), o) == u16_at(s, a + o),
{ assert(s.skip(a).subrange(o, o + 2) =~= s.subrange(a + o, a + o + 2)); }
pub broadcast group vpin_bytes { lemma_skip_skip, lemma_u32_at_skip, lemma_u16_at_skip }
