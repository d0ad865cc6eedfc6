@@module face src/vpx/obj.rs
@@broadcast vpin_base, vpin_bytes
@@item struct VpxFace
@@item enum VpxCommentBytes
@@item struct ReadObjResult
@@fn VpxFace::new
    ensures r == (VpxFace { i0: i0, i1: i1, i2: i2 }),
@@fn write_vertex_index_for_vpx
    ensures final(vpx_indices)@ == old(vpx_indices)@ + idx_enc(bytes_per_index, vertex_index),
@@fn write_vertex
    ensures final(buff)@ == old(buff)@ + vert_enc(*vertex, *vpx_bytes),
@@post
    assert(buff@ =~= old(buff)@ + vert_enc(*vertex, *vpx_bytes));
@@extra
/// one index as stored: 2 or 4 bytes
pub open spec fn idx_enc(w: u8, i: i64) -> Seq<u8> { if w == 2 { b16(i as u16) } else { b32(i as u32) } }
pub open spec fn nan0(x: f32) -> f32 { if f32_nan(x) { 0.0f32 } else { x } }
/// one vertex as stored; bytes kept in a comment win over the numbers
pub open spec fn vert_enc(v: Vertex3dNoTex2, c: Option<VpxCommentBytes>) -> Seq<u8> {
    match c {
        Some(VpxCommentBytes::Vertex(b)) => b@,
        Some(VpxCommentBytes::Normal(b)) => b32(f32_bits(v.x)) + b32(f32_bits(v.y)) + b32(f32_bits(v.z)) + b@ + b32(f32_bits(v.tu)) + b32(f32_bits(v.tv)),
        None => b32(f32_bits(v.x)) + b32(f32_bits(v.y)) + b32(f32_bits(v.z)) + b32(f32_bits(nan0(v.nx))) + b32(f32_bits(nan0(v.ny))) + b32(f32_bits(nan0(v.nz))) + b32(f32_bits(v.tu)) + b32(f32_bits(v.tv)),
    }
}
