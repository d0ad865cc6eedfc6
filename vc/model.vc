@@module model src/vpx/model.rs
@@item enum StringEncoding
@@item struct StringWithEncoding
@@fn StringWithEncoding::empty
    ensures swe_view(r) == (true, Seq::<char>::empty()),
@@start
    proof { reveal_strlit(""); }
@@fn StringWithEncoding::from
@@rename from_str
    ensures swe_view(r) == (true, s@),
@@fn StringWithEncoding::from@From<&[u8]>
@@rename from_slice
    ensures swe_view(r) == swe_of(data@),
@@fn StringWithEncoding::from@From<Vec<u8>>
@@rename from_vec
    ensures swe_view(r) == swe_of(data@),
@@fn Vec::from@From<StringWithEncoding>
@@free vec_from_swe Vec<u8>
    requires swe_bytes_ok(swe_view(string_with_encoding)),
    ensures r@ == swe_bytes(swe_view(string_with_encoding)),
@@extra
pub open spec fn swe_view(s: StringWithEncoding) -> (bool, Seq<char>) { (s.encoding is Utf8, s.string@) }
impl<'a> VInto<StringWithEncoding> for &'a [u8] {
    open spec fn into_ok(self) -> bool { true }
    open spec fn into_is(self, r: StringWithEncoding) -> bool { swe_view(r) == swe_of(self@) }
    fn v_into(self) -> (r: StringWithEncoding) { StringWithEncoding::from_slice(self) }
}
