@@module vertex3d src/vpx/gameitem/vertex3d.rs
@@broadcast vpin_base, vpin_str, vpin_seq, vpin_rd
@@item struct Vertex3D
@@fn Vertex3D::read_unpadded
    requires old(reader).wf(), old(reader).cur().len() >= 12,
    ensures final(reader).took(old(reader), 12), ({ let p = old(reader).cur(); r == Vertex3D { x: f32_of_bits(u32_at(p, 0)), y: f32_of_bits(u32_at(p, 4)), z: f32_of_bits(u32_at(p, 8)) } }),
@@fn Vertex3D::read_padded
    requires old(reader).wf(), old(reader).cur().len() >= 16,
    ensures final(reader).took(old(reader), 16), ({ let p = old(reader).cur(); r == Vertex3D { x: f32_of_bits(u32_at(p, 0)), y: f32_of_bits(u32_at(p, 4)), z: f32_of_bits(u32_at(p, 8)) } }),
@@fn Vertex3D::write_unpadded
    requires old(writer).wf(),
    ensures final(writer).appended(old(writer), pl_v3u(*self)), pl_v3u(*self).len() == 12,
@@post
    assert(writer.data@ =~= old(writer).data@ + (b32(f32_bits(self.x)) + b32(f32_bits(self.y)) + b32(f32_bits(self.z))));
    lemma_appended(old(writer), writer, b32(f32_bits(self.x)) + b32(f32_bits(self.y)) + b32(f32_bits(self.z)));
@@fn Vertex3D::write_padded
    requires old(writer).wf(),
    ensures final(writer).appended(old(writer), pl_v3(*self)), pl_v3(*self).len() == 16,
@@post
    assert(writer.data@ =~= old(writer).data@ + (b32(f32_bits(self.x)) + b32(f32_bits(self.y)) + b32(f32_bits(self.z)) + b32(f32_bits(0.0))));
    lemma_appended(old(writer), writer, b32(f32_bits(self.x)) + b32(f32_bits(self.y)) + b32(f32_bits(self.z)) + b32(f32_bits(0.0)));
@@fn Vertex3D::biff_read
    requires old(reader).wf(), old(reader).cur().len() >= 16,
    ensures final(reader).took(old(reader), 16), ({ let p = old(reader).cur(); r == Vertex3D { x: f32_of_bits(u32_at(p, 0)), y: f32_of_bits(u32_at(p, 4)), z: f32_of_bits(u32_at(p, 8)) } }),
@@fn Vertex3D::biff_write
    requires old(writer).wf(),
    ensures final(writer).appended(old(writer), pl_v3(*self)), pl_v3(*self).len() == 16,
@@post
    assert(writer.data@ =~= old(writer).data@ + (b32(f32_bits(self.x)) + b32(f32_bits(self.y)) + b32(f32_bits(self.z)) + b32(f32_bits(0.0))));
    lemma_appended(old(writer), writer, b32(f32_bits(self.x)) + b32(f32_bits(self.y)) + b32(f32_bits(self.z)) + b32(f32_bits(0.0)));
@@extra
/*opaque-in-client*/ pub open spec fn pl_v3u(v: Vertex3D) -> Seq<u8> { b32(f32_bits(v.x)) + b32(f32_bits(v.y)) + b32(f32_bits(v.z)) }
/*opaque-in-client*/ pub open spec fn pl_v3(v: Vertex3D) -> Seq<u8> { b32(f32_bits(v.x)) + b32(f32_bits(v.y)) + b32(f32_bits(v.z)) + b32(f32_bits(0.0)) }
