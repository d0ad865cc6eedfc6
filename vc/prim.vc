@@module prim src/vpx/gameitem/primitive.rs
@@broadcast vpin_base, vpin_bytes
@@item const BYTES_PER_VERTEX
@@item const MAX_VERTICES_FOR_2_BYTE_INDEX
@@item struct VertexWrapper
@@item struct ReadMesh
@@item struct VertData
@@item implconst VertData::SERIALIZED_SIZE
@@fn VertexWrapper::new
    ensures r == (VertexWrapper { vpx_encoded_vertex: vpx_encoded_vertex, vertex: vertex }),
@@fn read_vertex
@@subst \.as_ref\(\)=>.v_as_slice()
    requires old(buffer)@.len() >= 32,
    ensures final(buffer)@ == old(buffer)@.skip(32), wrap_is(r, old(buffer)@.take(32)),
@@fn raw_vertices_to_vertices
    requires raw_vertices@.len() >= 32 * num_vertices,
    ensures verts_are(r@, raw_vertices@, num_vertices as int),
@@loop 0
    iter __it
    invariant
        raw_vertices@.len() >= 32 * num_vertices, __it.index() <= num_vertices,
        buff@ == raw_vertices@.skip(32 * __it.index()), verts_are(vertices@, raw_vertices@, __it.index()),
@@loop_start 0
    proof { let d = raw_vertices@; let o = 32 * __it.index(); assert(d.skip(o).take(32) =~= d.subrange(o, o + 32)); assert(d.skip(o).skip(32) =~= d.skip(o + 32)); }
@@fn raw_indices_to_indices
    requires bytes_per_index == 2 || bytes_per_index == 4,
    ensures faces_are(r@, vpx_encoded_indices@, bytes_per_index as int, n_faces(vpx_encoded_indices@, bytes_per_index as int)),
@@before_loop 0
    assert(num_indices / 3 == n_faces(vpx_encoded_indices@, bytes_per_index as int));
@@loop 0
    iter __it
    invariant
        bytes_per_index == 2 || bytes_per_index == 4,
        num_indices / 3 == n_faces(vpx_encoded_indices@, bytes_per_index as int), __it.index() <= num_indices / 3,
        buff@ == vpx_encoded_indices@.skip(offs(bytes_per_index as int, __it.index())), faces_are(indices@, vpx_encoded_indices@, bytes_per_index as int, __it.index()),
@@loop_start 0
    broadcast use {vpin_base, vpin_bytes};
    proof {
        let d = vpx_encoded_indices@; let i = __it.index(); let w = bytes_per_index as int;
        lemma_faces_fit(d, w, i);
        if w == 2 { assert(offs(w, i) == 6 * i && offs(w, i + 1) == 6 * i + 6); } else { assert(offs(w, i) == 12 * i && offs(w, i + 1) == 12 * i + 12); }
    }
@@loop_end 0
    proof {
        let d = vpx_encoded_indices@; let i = __it.index(); let w = bytes_per_index as int;
        let f = indices@[i];
        if w == 2 { assert(buff@ == d.skip(offs(w, i) + 6)); } else { assert(buff@ == d.skip(offs(w, i) + 12)); }
        let o = offs(w, i);
        assert(f.i0 == idx_at(d, w, o));
        assert(f.i1 == idx_at(d, w, o + w));
        assert(f.i2 == idx_at(d, w, o + 2 * w));
        assert(f == face_at(d, w, i));
    }
@@fn read_animation_vertex_data
    requires old(buffer)@.len() >= 24,
    ensures final(buffer)@ == old(buffer)@.skip(24), r == frame_vert(old(buffer)@),
@@fn write_animation_vertex_data
    ensures final(buff)@ == old(buff)@ + frame_vert_enc(*vertex),
@@post
    assert(buff@ =~= old(buff)@ + frame_vert_enc(*vertex));
@@fn decompress_mesh_data
@@external
    ensures r is Ok == zlib_ok(compressed_data@), r is Ok ==> r->Ok_0@ == inflate(compressed_data@),
@@fn compress_mesh_data
@@external
    ensures r is Ok ==> zlib_ok(r->Ok_0@) && inflate(r->Ok_0@) == data@,
@@fn Primitive::read_mesh
@@implas PrimMesh
    requires mesh_counts_ok(*self),
    ensures
        self.compressed_vertices_data is None ==> r matches Ok(None),
        self.compressed_vertices_data is Some && self.compressed_indices_data is None ==> r is Err,
        self.compressed_vertices_data is Some && self.compressed_indices_data is Some && zlib_ok(self.compressed_vertices_data->0@) && zlib_ok(self.compressed_indices_data->0@)
            ==> r is Ok && r->Ok_0 is Some && mesh_is(r->Ok_0->0, inflate(self.compressed_vertices_data->0@), inflate(self.compressed_indices_data->0@)),
@@fn read_vpx_animation_frame
    ensures
        compressed_frame@.len() != *compressed_length ==> r is Err,
        compressed_frame@.len() == *compressed_length && zlib_ok(compressed_frame@) ==> r is Ok && frame_is(r->Ok_0@, inflate(compressed_frame@), inflate(compressed_frame@).len() as int / 24),
@@loop 0
    iter __it
    invariant
        frame_data_len == decompressed_frame@.len() as int / 24, __it.index() <= frame_data_len,
        buff@ == decompressed_frame@.skip(24 * __it.index()), frame_is(vertices@, decompressed_frame@, __it.index()),
@@loop_start 0
    broadcast use {vpin_base, vpin_bytes};
@@extra
/// the fields of a primitive that its mesh functions use
pub struct PrimMesh { pub name: String, pub num_vertices: Option<u32>, pub num_indices: Option<u32>, pub compressed_vertices_data: Option<Vec<u8>>, pub compressed_indices_data: Option<Vec<u8>> }
pub enum WriteError { Io(Error), Json(Error) }
impl From<Error> for WriteError { #[verifier::external_body] fn from(e: Error) -> (r: WriteError) { unimplemented!() } }
/// assumed: zlib (crate flate2) undoes itself
pub uninterp spec fn zlib_ok(c: Seq<u8>) -> bool;
pub uninterp spec fn inflate(c: Seq<u8>) -> Seq<u8>;
pub open spec fn opt_u32(o: Option<u32>) -> int { match o { Some(x) => x as int, None => 0 } }
pub open spec fn mesh_width(v: Seq<u8>) -> int { if v.len() as int / 32 > 65535 { 4 } else { 2 } }
pub open spec fn mesh_counts_ok(p: PrimMesh) -> bool {
    p.compressed_vertices_data is Some && p.compressed_indices_data is Some ==> {
        let v = inflate(p.compressed_vertices_data->0@); let i = inflate(p.compressed_indices_data->0@);
        opt_u32(p.num_vertices) == v.len() as int / 32 && opt_u32(p.num_indices) == i.len() as int / mesh_width(v)
    }
}
pub open spec fn mesh_is(m: ReadMesh, v: Seq<u8>, i: Seq<u8>) -> bool { verts_are(m.vertices@, v, v.len() as int / 32) && faces_are(m.indices@, i, mesh_width(v), n_faces(i, mesh_width(v))) }
pub open spec fn frame_is(f: Seq<VertData>, d: Seq<u8>, n: int) -> bool { f.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] f[i] == frame_vert(d.skip(24 * i)) }
/// the numbers at the front of a stored vertex
pub open spec fn vert_at(d: Seq<u8>) -> Vertex3dNoTex2 {
    Vertex3dNoTex2 { x: f32_of_bits(u32_at(d, 0)), y: f32_of_bits(u32_at(d, 4)), z: f32_of_bits(u32_at(d, 8)), nx: f32_of_bits(u32_at(d, 12)), ny: f32_of_bits(u32_at(d, 16)), nz: f32_of_bits(u32_at(d, 20)), tu: f32_of_bits(u32_at(d, 24)), tv: f32_of_bits(u32_at(d, 28)) }
}
pub open spec fn wrap_is(w: VertexWrapper, d: Seq<u8>) -> bool { w.vpx_encoded_vertex@ == d && w.vertex == vert_at(d) }
pub open spec fn verts_are(v: Seq<VertexWrapper>, d: Seq<u8>, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> wrap_is(#[trigger] v[i], d.subrange(32 * i, 32 * i + 32)) }
pub open spec fn idx_at(d: Seq<u8>, w: int, o: int) -> i64 { if w == 2 { u16_at(d, o) as i64 } else { u32_at(d, o) as i64 } }
pub open spec fn n_faces(d: Seq<u8>, w: int) -> int { if w == 2 { d.len() as int / 2 / 3 } else { d.len() as int / 4 / 3 } }
pub open spec fn stride(w: int) -> int { if w == 2 { 6 } else { 12 } }
pub open spec fn offs(w: int, j: int) -> int { if w == 2 { 6 * j } else { 12 * j } }
pub open spec fn face_at(d: Seq<u8>, w: int, j: int) -> VpxFace { VpxFace { i0: idx_at(d, w, offs(w, j)), i1: idx_at(d, w, offs(w, j) + w), i2: idx_at(d, w, offs(w, j) + 2 * w) } }
pub open spec fn faces_are(f: Seq<VpxFace>, d: Seq<u8>, w: int, n: int) -> bool { f.len() == n && forall|j: int| 0 <= j < n ==> #[trigger] f[j] == face_at(d, w, j) }
pub open spec fn frame_vert(d: Seq<u8>) -> VertData { VertData { x: f32_of_bits(u32_at(d, 0)), y: f32_of_bits(u32_at(d, 4)), z: f32_of_bits(u32_at(d, 8)), nx: f32_of_bits(u32_at(d, 12)), ny: f32_of_bits(u32_at(d, 16)), nz: f32_of_bits(u32_at(d, 20)) } }
pub open spec fn frame_vert_enc(v: VertData) -> Seq<u8> { b32(f32_bits(v.x)) + b32(f32_bits(v.y)) + b32(f32_bits(v.z)) + b32(f32_bits(v.nx)) + b32(f32_bits(v.ny)) + b32(f32_bits(v.nz)) }
pub proof fn lemma_faces_fit(d: Seq<u8>, w: int, i: int)
    requires w == 2 || w == 4, 0 <= i < n_faces(d, w),
    ensures offs(w, i + 1) <= d.len(),
{
    let l = d.len() as int;
    if w == 2 { let q = l / 2; let p = q / 3; assert(p == n_faces(d, w)); assert(3 * p <= q); assert(2 * q <= l); }
    else { let q = l / 4; let p = q / 3; assert(p == n_faces(d, w)); assert(3 * p <= q); assert(4 * q <= l); }
}
