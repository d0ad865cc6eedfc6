@@module vertex4d src/vpx/gameitem/vertex4d.rs
@@broadcast vpin_base, vpin_str, vpin_seq, vpin_rd
@@item struct Vertex4D
@@fn Vertex4D::biff_read
    requires old(reader).wf(), old(reader).cur().len() >= 16,
    ensures final(reader).took(old(reader), 16), ({ let p = old(reader).cur(); r == Vertex4D { x: f32_of_bits(u32_at(p, 0)), y: f32_of_bits(u32_at(p, 4)), z: f32_of_bits(u32_at(p, 8)), w: f32_of_bits(u32_at(p, 12)) } }),
@@fn Vertex4D::biff_write
    requires old(writer).wf(),
    ensures final(writer).appended(old(writer), pl_v4(*self)), pl_v4(*self).len() == 16,
@@post
    assert(writer.data@ =~= old(writer).data@ + (b32(f32_bits(self.x)) + b32(f32_bits(self.y)) + b32(f32_bits(self.z)) + b32(f32_bits(self.w))));
    lemma_appended(old(writer), writer, b32(f32_bits(self.x)) + b32(f32_bits(self.y)) + b32(f32_bits(self.z)) + b32(f32_bits(self.w)));
@@extra
/*opaque-in-client*/ pub open spec fn pl_v4(v: Vertex4D) -> Seq<u8> { b32(f32_bits(v.x)) + b32(f32_bits(v.y)) + b32(f32_bits(v.z)) + b32(f32_bits(v.w)) }
