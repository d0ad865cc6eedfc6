@@module meshfiles src/vpx/expanded/primitives.rs
@@broadcast vpin_base, vpin_bytes
@@item struct MeshReadResult
@@fn BytesMut::put_f32_le_nan_as_zero
@@implas BytesMut
    ensures final(self)@ == old(self)@ + b32(f32_bits(nan0(value))),
@@fn vpx_encode_vertices
    requires indices@.len() * 12 <= usize::MAX,
    ensures r@ == faces_enc(idx_width(vertices_len as int), indices@),
@@start
    proof { let n = indices@.len() as int; assert(n * 2 <= n * 12 && n * 4 <= n * 12) by (nonlinear_arith) requires n >= 0; }
@@before_loop 0
    assert(indices@.take(0) =~= Seq::<VpxFace>::empty());
@@loop 0
    iter __it
    invariant
        bytes_per_index == idx_width(vertices_len as int), __it.seq() == indices@.map_values(|x: VpxFace| &x),
        vpx_encoded_indices@ == faces_enc(bytes_per_index, indices@.take(__it.index())),
@@loop_end 0
    assert(indices@.take(__it.index() + 1).drop_last() =~= indices@.take(__it.index()));
@@post
    assert(indices@.take(indices@.len() as int) =~= indices@);
@@fn read_obj
@@external
    ensures r is Ok ==> obj_gives(*obj_path, r->Ok_0) && r->Ok_0.indices@.len() * 12 <= usize::MAX,
@@fn compress_vertices_and_indices
@@external
    ensures r is Ok ==> zlib_ok((r->Ok_0).0@) && inflate((r->Ok_0).0@) == vpx_vertices@ && zlib_ok((r->Ok_0).1@) && inflate((r->Ok_0).1@) == vpx_indices@,
@@fn read_obj_and_compress
    ensures r is Ok ==> exists|o: ReadObjResult| #[trigger] obj_gives(*obj_path, o) && packs(r->Ok_0, o.vertices@.len() as int, o.vpx_encoded_vertices@, o.indices@),
@@fn read_gltf_and_compress
    ensures r is Ok ==> exists|v: Seq<VertexWrapper>, f: Seq<VpxFace>| #[trigger] gltf_gives(*gltf_path, v, f) && packs(r->Ok_0, v.len() as int, wraps_enc(v), f),
@@before_loop 0
    assert(vertices@.take(0) =~= Seq::<VertexWrapper>::empty());
@@loop 0
    iter __it
    invariant
        __it.seq() == vertices@.map_values(|x: VertexWrapper| &x),
        vpx_vertices@ == wraps_enc(vertices@.take(__it.index())),
@@loop_end 0
    assert(vertices@.take(__it.index() + 1).drop_last() =~= vertices@.take(__it.index()));
@@after_loop 0
    proof { let n = indices@.len() as int; assert(n * 2 <= n * 12 && n * 4 <= n * 12) by (nonlinear_arith) requires n >= 0; }
@@before_loop 1
    assert(vertices@.take(vertices@.len() as int) =~= vertices@);
    assert(indices@.take(0) =~= Seq::<VpxFace>::empty());
@@loop 1
    iter __it
    invariant
        bytes_per_index == idx_width(vertices@.len() as int), __it.seq() == indices@.map_values(|x: VpxFace| &x),
        vpx_indices@ == faces_enc(bytes_per_index, indices@.take(__it.index())),
@@loop_end 1
    assert(indices@.take(__it.index() + 1).drop_last() =~= indices@.take(__it.index()));
@@after_loop 1
    assert(indices@.take(indices@.len() as int) =~= indices@);
@@fn read_gltf_as_frame
    ensures r is Ok ==> exists|v: Seq<VertexWrapper>, f: Seq<VpxFace>| #[trigger] gltf_gives(*gltf_path, v, f) && r->Ok_0@ == v.map_values(|x: VertexWrapper| frame_of(x.vertex)),
@@loop 0
    iter __it
    invariant
        exists|f: Seq<VpxFace>| #[trigger] gltf_gives(*gltf_path, __it.seq(), f), frames@ == __it.seq().take(__it.index()).map_values(|x: VertexWrapper| frame_of(x.vertex)),
@@extra
pub struct Path { pub p: u8 }
pub trait FileSystem { }
pub enum GltfContainer { Glb, Gltf }
/// assumed: the text forms of meshes (bounded runs compare them with the mesh they were written from)
pub uninterp spec fn obj_gives(p: Path, o: ReadObjResult) -> bool;
pub uninterp spec fn gltf_gives(p: Path, v: Seq<VertexWrapper>, f: Seq<VpxFace>) -> bool;
#[verifier::external_body] pub fn read_gltf(p: &Path, c: GltfContainer, fs: &dyn FileSystem) -> (r: Result<(Vec<VertexWrapper>, Vec<VpxFace>), Error>)
    ensures r is Ok ==> gltf_gives(*p, (r->Ok_0).0@, (r->Ok_0).1@) && (r->Ok_0).0@.len() * 32 <= usize::MAX && (r->Ok_0).1@.len() * 12 <= usize::MAX { unimplemented!() }
pub open spec fn frame_of(v: Vertex3dNoTex2) -> VertData { VertData { x: v.x, y: v.y, z: v.z, nx: v.nx, ny: v.ny, nz: v.nz } }
pub open spec fn wraps_enc(v: Seq<VertexWrapper>) -> Seq<u8> decreases v.len() { if v.len() == 0 { Seq::<u8>::empty() } else { wraps_enc(v.drop_last()) + v.last().vpx_encoded_vertex@ } }
/// the packed form of a mesh: counts, and both streams compressed, the indices as wide as the vertex count asks
pub open spec fn packs(r: MeshReadResult, n: int, v: Seq<u8>, f: Seq<VpxFace>) -> bool {
    &&& r.vertices_len == n && r.indices_len == 3 * f.len()
    &&& zlib_ok(r.compressed_vertices@) && inflate(r.compressed_vertices@) == v
    &&& zlib_ok(r.compressed_indices@) && inflate(r.compressed_indices@) == faces_enc(idx_width(n), f)
}
pub open spec fn idx_width(n: int) -> u8 { if n > 65535 { 4u8 } else { 2u8 } }
pub open spec fn face_enc(w: u8, f: VpxFace) -> Seq<u8> { idx_enc(w, f.i0) + idx_enc(w, f.i1) + idx_enc(w, f.i2) }
pub open spec fn faces_enc(w: u8, f: Seq<VpxFace>) -> Seq<u8> decreases f.len() { if f.len() == 0 { Seq::<u8>::empty() } else { faces_enc(w, f.drop_last()) + face_enc(w, f.last()) } }

pub open spec fn fits1(w: u8, i: i64) -> bool { if w == 2 { 0 <= i <= 0xffff } else { 0 <= i <= 0xffff_ffff } }
pub open spec fn fits(w: u8, f: VpxFace) -> bool { fits1(w, f.i0) && fits1(w, f.i1) && fits1(w, f.i2) }
pub proof fn lemma_idx_back(w: u8, a: Seq<u8>, i: i64, e: Seq<u8>)
    requires w == 2 || w == 4, fits1(w, i),
    ensures idx_at(a + idx_enc(w, i) + e, w as int, a.len() as int) == i, idx_enc(w, i).len() == w,
{
    broadcast use {vpin_base, vpin_bytes};
    let d = a + idx_enc(w, i) + e;
    let o = a.len() as int;
    if w == 2 { assert((i as u16) as i64 == i); assert(d.subrange(o, o + 2) =~= b16(i as u16)); } else { assert((i as u32) as i64 == i); assert(d.subrange(o, o + 4) =~= b32(i as u32)); }
}
pub proof fn lemma_idx_left(w: int, a: Seq<u8>, e: Seq<u8>, o: int)
    requires w == 2 || w == 4, 0 <= o, o + w <= a.len(),
    ensures idx_at(a + e, w, o) == idx_at(a, w, o),
{
    assert((a + e).subrange(o, o + w) =~= a.subrange(o, o + w));
}
pub proof fn lemma_face_left(w: int, a: Seq<u8>, e: Seq<u8>, j: int)
    requires w == 2 || w == 4, 0 <= j, offs(w, j) + 3 * w <= a.len(),
    ensures face_at(a + e, w, j) == face_at(a, w, j),
{
    let o = offs(w, j);
    lemma_idx_left(w, a, e, o); lemma_idx_left(w, a, e, o + w); lemma_idx_left(w, a, e, o + 2 * w);
}
/// faces packed at a width their indices fit in read back as the same faces
pub proof fn lemma_faces_back(w: u8, f: Seq<VpxFace>)
    requires w == 2 || w == 4, forall|i: int| 0 <= i < f.len() ==> fits(w, #[trigger] f[i]),
    ensures
        faces_enc(w, f).len() == offs(w as int, f.len() as int), n_faces(faces_enc(w, f), w as int) == f.len(),
        faces_are(f, faces_enc(w, f), w as int, f.len() as int),
    decreases f.len(),
{
    if f.len() > 0 {
        let g = f.drop_last(); let l = f.last(); let n = f.len() as int - 1;
        assert(forall|i: int| 0 <= i < g.len() ==> g[i] == f[i]);
        lemma_faces_back(w, g);
        let a = faces_enc(w, g); let e0 = idx_enc(w, l.i0); let e1 = idx_enc(w, l.i1); let e2 = idx_enc(w, l.i2);
        let d = faces_enc(w, f);
        assert(fits(w, f[n]));
        assert(d == a + face_enc(w, l));
        lemma_idx_back(w, a, l.i0, e1 + e2); lemma_idx_back(w, a + e0, l.i1, e2); lemma_idx_back(w, a + e0 + e1, l.i2, Seq::<u8>::empty());
        assert(d =~= a + e0 + (e1 + e2)); assert(d =~= (a + e0) + e1 + e2); assert(d =~= (a + e0 + e1) + e2 + Seq::<u8>::empty());
        assert(face_at(d, w as int, n) == l);
        assert forall|j: int| 0 <= j < f.len() implies #[trigger] f[j] == face_at(d, w as int, j) by {
            if j < n { assert(g[j] == face_at(a, w as int, j)); lemma_face_left(w as int, a, face_enc(w, l), j); }
        }
    }
}
/// vertices packed as 32 bytes each read back as the same bytes
pub proof fn lemma_wraps_back(v: Seq<VertexWrapper>)
    requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).vpx_encoded_vertex@.len() == 32,
    ensures
        wraps_enc(v).len() == 32 * v.len(),
        forall|i: int| 0 <= i < v.len() ==> wraps_enc(v).subrange(32 * i, 32 * i + 32) == (#[trigger] v[i]).vpx_encoded_vertex@,
    decreases v.len(),
{
    if v.len() > 0 {
        let g = v.drop_last(); let n = v.len() as int - 1;
        assert(forall|i: int| 0 <= i < g.len() ==> g[i] == v[i]);
        lemma_wraps_back(g);
        let a = wraps_enc(g); let e = v[n].vpx_encoded_vertex@;
        assert(wraps_enc(v) == a + e);
        assert forall|i: int| 0 <= i < v.len() implies wraps_enc(v).subrange(32 * i, 32 * i + 32) == (#[trigger] v[i]).vpx_encoded_vertex@ by {
            if i < n { assert(g[i] == v[i]); assert((a + e).subrange(32 * i, 32 * i + 32) =~= a.subrange(32 * i, 32 * i + 32)); } else { assert((a + e).subrange(32 * i, 32 * i + 32) =~= e); }
        }
    }
}
/// a mesh file packed and read again is the mesh the file gave: every face, and every vertex byte for byte
pub proof fn lemma_pack_read(r: MeshReadResult, v: Seq<VertexWrapper>, f: Seq<VpxFace>, m: ReadMesh)
    requires
        packs(r, v.len() as int, wraps_enc(v), f), mesh_is(m, inflate(r.compressed_vertices@), inflate(r.compressed_indices@)),
        forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).vpx_encoded_vertex@.len() == 32,
        forall|i: int| 0 <= i < f.len() ==> fits(idx_width(v.len() as int), #[trigger] f[i]),
    ensures
        m.indices@ =~= f, m.vertices@.len() == v.len(),
        forall|i: int| 0 <= i < v.len() ==> (#[trigger] m.vertices@[i]).vpx_encoded_vertex@ == v[i].vpx_encoded_vertex@,
        mesh_counts_ok(PrimMesh { name: arbitrary(), num_vertices: Some(r.vertices_len as u32), num_indices: Some(r.indices_len as u32), compressed_vertices_data: Some(r.compressed_vertices), compressed_indices_data: Some(r.compressed_indices) })
            || r.vertices_len > u32::MAX || r.indices_len > u32::MAX,
{
    let w = idx_width(v.len() as int); let d = inflate(r.compressed_vertices@); let x = inflate(r.compressed_indices@);
    lemma_wraps_back(v); lemma_faces_back(w, f);
    assert(d.len() as int / 32 == v.len());
    assert(mesh_width(d) == w as int);
    if w == 2 { assert(x.len() == 6 * f.len()); assert(x.len() as int / 2 == 3 * f.len()); } else { assert(x.len() == 12 * f.len()); assert(x.len() as int / 4 == 3 * f.len()); }
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] m.vertices@[i]).vpx_encoded_vertex@ == v[i].vpx_encoded_vertex@ by {
        assert(wrap_is(m.vertices@[i], d.subrange(32 * i, 32 * i + 32))); assert(v[i] == v[i]);
    }
    assert forall|j: int| 0 <= j < f.len() implies m.indices@[j] == f[j] by { assert(m.indices@[j] == face_at(x, w as int, j)); assert(f[j] == face_at(x, w as int, j)); }
}
