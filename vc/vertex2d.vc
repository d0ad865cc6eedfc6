@@module vertex2d src/vpx/gameitem/vertex2d.rs
@@broadcast vpin_base, vpin_str, vpin_seq, vpin_rd
@@item struct Vertex2D
@@fn Vertex2D::biff_read
    requires old(reader).wf(), old(reader).cur().len() >= 8,
    ensures final(reader).took(old(reader), 8), ({ let p = old(reader).cur(); r == Vertex2D { x: f32_of_bits(u32_at(p, 0)), y: f32_of_bits(u32_at(p, 4)) } }),
@@fn Vertex2D::biff_write
    requires old(writer).wf(),
    ensures final(writer).appended(old(writer), pl_v2(*self)), pl_v2(*self).len() == 8,
@@post
    assert(writer.data@ =~= old(writer).data@ + (b32(f32_bits(self.x)) + b32(f32_bits(self.y))));
    lemma_appended(old(writer), writer, b32(f32_bits(self.x)) + b32(f32_bits(self.y)));
@@extra
/*opaque-in-client*/ pub open spec fn pl_v2(v: Vertex2D) -> Seq<u8> { b32(f32_bits(v.x)) + b32(f32_bits(v.y)) }
