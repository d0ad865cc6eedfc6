@@module font src/vpx/gameitem/font.rs
@@broadcast vpin_base, vpin_str, vpin_seq, vpin_rd
@@item enum FontStyle
@@item const EXPECTED_FONTDESC_VERSION
@@item struct Font
@@fn FontStyle::flags_to_styles
@@external
    ensures r == font_styles(style),
@@fn FontStyle::styles_to_flags
@@external
    ensures r == font_flags(*flags),
@@fn Font::biff_read
    requires old(reader).pos <= old(reader).data@.len(), font_ok(old(reader).data@.skip(old(reader).pos as int)), old(reader).data@.len() <= isize::MAX,
    ensures final(reader).adv(old(reader), font_len(old(reader).data@.skip(old(reader).pos as int))), r == font_of(old(reader).data@.skip(old(reader).pos as int)),
        font_len(old(reader).data@.skip(old(reader).pos as int)) <= old(reader).data@.len() - old(reader).pos,
        old(reader).cur().len() == 0 && old(reader).wf() ==> final(reader).wf() && final(reader).cur().len() == 0 && final(reader).rest() == font_rest(old(reader).rest()),
@@start
    broadcast use {axiom_mk_string};
    proof {
        let d = self_d(reader);
        let s = d.skip(reader.pos as int); let p = reader.pos as int;
        assert(s[0] == d[p]); assert(s[3] == d[p + 3]); assert(s[10] == d[p + 10]);
        assert(s.subrange(1, 3) =~= d.subrange(p + 1, p + 3)); assert(s.subrange(4, 6) =~= d.subrange(p + 4, p + 6)); assert(s.subrange(6, 10) =~= d.subrange(p + 6, p + 10));
        assert(s.subrange(11, 11 + s[10] as int) =~= d.subrange(p + 11, p + 11 + s[10]));
        if reader.cur().len() == 0 && reader.wf() { assert(reader.rest() =~= s); assert(font_rest(s) =~= d.skip(p + font_len(s))); }
    }
@@fn Font::biff_write
    requires old(writer).wf(), font_valid(*self),
    ensures final(writer).appended(old(writer), font_enc(*self)), font_enc(*self).len() == 11 + self.name@.len(),
@@post
    broadcast use {vpin_base, vpin_str};
    assert(writer.data@ =~= old(writer).data@ + font_enc(*self));
    lemma_appended(old(writer), writer, font_enc(*self));
@@extra
pub open spec fn self_d(r: &BiffReader) -> Seq<u8> { r.data@ }
pub uninterp spec fn font_styles(f: u8) -> std::collections::HashSet<FontStyle>;
pub uninterp spec fn font_flags(s: std::collections::HashSet<FontStyle>) -> u8;
/// assumed: the style set is what its flag byte says (checked exhaustively on the real code by the replay harness)
pub axiom fn axiom_font_styles(s: std::collections::HashSet<FontStyle>) ensures font_styles(font_flags(s)) == s;
pub open spec fn font_ok(d: Seq<u8>) -> bool { d.len() >= 11 && d[0] == 1 && d.len() >= 11 + d[10] }
pub open spec fn font_len(d: Seq<u8>) -> int { 11 + d[10] }
pub open spec fn font_rest(d: Seq<u8>) -> Seq<u8> { d.skip(font_len(d)) }
pub open spec fn font_of(d: Seq<u8>) -> Font {
    Font { charset: u16_at(d, 1), style: font_styles(d[3]), weight: u16_at(d, 4), size: u32_at(d, 6), name: mk_string(latin1_dec(until0(d.subrange(11, 11 + d[10])))) }
}
pub open spec fn font_valid(x: Font) -> bool { is_latin1(x.name@) && no_nul(x.name@) && x.name@.len() <= 255 }
/*opaque-in-client*/ pub open spec fn font_enc(x: Font) -> Seq<u8> {
    seq![1u8] + b16(x.charset) + seq![font_flags(x.style)] + b16(x.weight) + b32(x.size) + (seq![x.name@.len() as u8] + latin1_enc(x.name@))
}
pub proof fn lemma_font(x: Font, r: Seq<u8>)
    requires font_valid(x),
    ensures ({ let d = font_enc(x) + r; font_ok(d) && font_of(d) == x && font_rest(d) == r && font_len(d) == font_enc(x).len() }), font_enc(x).len() == 11 + x.name@.len(),
{
    broadcast use {vpin_base, vpin_str, axiom_mk_string};
    let d = font_enc(x) + r;
    let n = x.name@;
    lemma_latin1(n);
    assert(d.subrange(1, 3) =~= b16(x.charset));
    assert(d.subrange(4, 6) =~= b16(x.weight));
    assert(d.subrange(6, 10) =~= b32(x.size));
    assert(d[0] == 1 && d[3] == font_flags(x.style) && d[10] == n.len() as u8);
    assert(d.subrange(11, 11 + d[10]) =~= latin1_enc(n));
    lemma_until0(latin1_enc(n), n.len() as int);
    assert(latin1_enc(n).take(n.len() as int) =~= latin1_enc(n));
    axiom_font_styles(x.style);
    assert(font_rest(d) =~= r);
}
