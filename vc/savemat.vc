@@module savemat src/vpx/material.rs
@@broadcast vpin_base, vpin_str, vpin_seq, vpin_bytes, axiom_mk_string
@@item const MAX_NAME_BUFFER
@@item struct SaveMaterial
@@item struct SavePhysicsMaterial
@@fn write_padded_cstring_truncate
    requires len >= 1,
    ensures is_latin1(str@) ==> final(bytes)@ == old(bytes)@ + padded(latin1_enc(str@), len as int),
@@post
        if is_latin1(str@) {
            lemma_latin1(str@);
            assert(bytes@ =~= old(bytes)@ + padded(latin1_enc(str@), len as int));
        }
@@fn read_padded_cstring
    requires len <= old(bytes)@.len(), old(bytes)@.take(len as int).contains(0u8),
    ensures final(bytes)@ == old(bytes)@.skip(len as int), r is Ok, r->Ok_0@ == latin1_dec(until0(old(bytes)@.take(len as int))),
@@fn get_padding_3_validate
    requires old(bytes)@.len() >= 3,
    ensures final(bytes)@ == old(bytes)@.skip(3),
@@fn SaveMaterial::write
    requires name_fits(self.name@),
    ensures final(bytes)@ == old(bytes)@ + save_enc(*self),
@@post
    reveal(save_enc); assert(bytes@ =~= old(bytes)@ + save_enc(*self));
@@fn SaveMaterial::read
    requires old(bytes)@.len() >= 76, old(bytes)@.take(32).contains(0u8),
    ensures final(bytes)@ == old(bytes)@.skip(76), r == save_of(old(bytes)@),
@@fn SavePhysicsMaterial::write
    requires name_fits(self.name@),
    ensures final(bytes)@ == old(bytes)@ + phys_enc(*self),
@@post
    reveal(phys_enc); assert(bytes@ =~= old(bytes)@ + phys_enc(*self));
@@fn SavePhysicsMaterial::read
    requires old(bytes)@.len() >= 48, old(bytes)@.take(32).contains(0u8),
    ensures final(bytes)@ == old(bytes)@.skip(48), r == phys_of(old(bytes)@),
@@extra
/// a text in a field of n bytes, cut to leave room for its terminator, zero-filled
pub open spec fn padded(b: Seq<u8>, n: int) -> Seq<u8> { let k = if b.len() > n - 1 { n - 1 } else { b.len() as int }; b.take(k) + Seq::new((n - k) as nat, |i: int| 0u8) }
pub open spec fn name_fits(s: Seq<char>) -> bool { is_latin1(s) && no_nul(s) && s.len() <= 31 }
pub open spec fn u8pad(x: u8) -> Seq<u8> { seq![x, 0u8, 0u8, 0u8] }
#[verifier::opaque] pub open spec fn save_enc(m: SaveMaterial) -> Seq<u8> {
    padded(latin1_enc(m.name@), 32) + b32(win_num(m.base_color) as u32) + b32(win_num(m.glossy_color) as u32) + b32(win_num(m.clearcoat_color) as u32) + b32(f32_bits(m.wrap_lighting)) + u8pad(if m.is_metal { 1 } else { 0 }) + b32(f32_bits(m.roughness))
        + u8pad(m.glossy_image_lerp) + b32(f32_bits(m.edge)) + u8pad(m.thickness) + b32(f32_bits(m.opacity)) + u8pad(m.opacity_active_edge_alpha)
}
#[verifier::opaque] pub open spec fn phys_enc(m: SavePhysicsMaterial) -> Seq<u8> {
    padded(latin1_enc(m.name@), 32) + b32(f32_bits(m.elasticity)) + b32(f32_bits(m.elasticity_falloff)) + b32(f32_bits(m.friction)) + b32(f32_bits(m.scatter_angle))
}
pub open spec fn name_at(d: Seq<u8>) -> String { mk_string(latin1_dec(until0(d.take(32)))) }
pub open spec fn color_at(d: Seq<u8>, o: int) -> Color { let v = u32_at(d, o); Color { r: byte_at(v, 0), g: byte_at(v, 1), b: byte_at(v, 2), unused: byte_at(v, 3) } }
pub open spec fn save_of(d: Seq<u8>) -> SaveMaterial {
    SaveMaterial { name: name_at(d), base_color: color_at(d, 32), glossy_color: color_at(d, 36), clearcoat_color: color_at(d, 40), wrap_lighting: f32_of_bits(u32_at(d, 44)), is_metal: d[48] != 0,
        roughness: f32_of_bits(u32_at(d, 52)), glossy_image_lerp: d[56], edge: f32_of_bits(u32_at(d, 60)), thickness: d[64], opacity: f32_of_bits(u32_at(d, 68)), opacity_active_edge_alpha: d[72] }
}
pub open spec fn phys_of(d: Seq<u8>) -> SavePhysicsMaterial {
    SavePhysicsMaterial { name: name_at(d), elasticity: f32_of_bits(u32_at(d, 32)), elasticity_falloff: f32_of_bits(u32_at(d, 36)), friction: f32_of_bits(u32_at(d, 40)), scatter_angle: f32_of_bits(u32_at(d, 44)) }
}
pub proof fn lemma_name(s: Seq<char>, d: Seq<u8>)
    requires name_fits(s), d.len() >= 32, d.take(32) == padded(latin1_enc(s), 32),
    ensures d.take(32).contains(0u8), latin1_dec(until0(d.take(32))) == s,
{
    lemma_latin1(s);
    let p = d.take(32); let n = s.len() as int;
    assert(p[31] == 0u8);
    assert forall|i: int| 0 <= i < n implies p[i] != 0 by { assert(p[i] == latin1_enc(s)[i]); }
    assert(p[n] == 0u8);
    lemma_until0(p, n);
    assert(p.take(n) =~= latin1_enc(s));
}
/// what is written reads back, whatever follows
pub proof fn lemma_save(m: SaveMaterial, r: Seq<u8>)
    requires name_fits(m.name@),
    ensures save_enc(m).len() == 76, save_of(save_enc(m) + r) == m, (save_enc(m) + r).take(32).contains(0u8), (save_enc(m) + r).skip(76) == r,
{
    broadcast use vpin_base;
    reveal(save_enc);
    lemma_latin1(m.name@); lemma_win_bytes(m.base_color); lemma_win_bytes(m.glossy_color); lemma_win_bytes(m.clearcoat_color);
    let d = save_enc(m) + r;
    assert(d.take(32) =~= padded(latin1_enc(m.name@), 32));
    lemma_name(m.name@, d);
    assert(d.subrange(32, 36) =~= b32(win_num(m.base_color) as u32)); assert(d.subrange(36, 40) =~= b32(win_num(m.glossy_color) as u32)); assert(d.subrange(40, 44) =~= b32(win_num(m.clearcoat_color) as u32));
    assert(d.subrange(44, 48) =~= b32(f32_bits(m.wrap_lighting))); assert(d.subrange(52, 56) =~= b32(f32_bits(m.roughness)));
    assert(d.subrange(60, 64) =~= b32(f32_bits(m.edge))); assert(d.subrange(68, 72) =~= b32(f32_bits(m.opacity)));
    axiom_f32_bits(m.wrap_lighting); axiom_f32_bits(m.roughness); axiom_f32_bits(m.edge); axiom_f32_bits(m.opacity);
    assert(d.skip(76) =~= r);
    assert(mk_string(m.name@) == m.name) by { broadcast use axiom_mk_string; }
}
pub proof fn lemma_phys(m: SavePhysicsMaterial, r: Seq<u8>)
    requires name_fits(m.name@),
    ensures phys_enc(m).len() == 48, phys_of(phys_enc(m) + r) == m, (phys_enc(m) + r).take(32).contains(0u8), (phys_enc(m) + r).skip(48) == r,
{
    broadcast use vpin_base;
    reveal(phys_enc);
    lemma_latin1(m.name@);
    let d = phys_enc(m) + r;
    assert(d.take(32) =~= padded(latin1_enc(m.name@), 32));
    lemma_name(m.name@, d);
    assert(d.subrange(32, 36) =~= b32(f32_bits(m.elasticity))); assert(d.subrange(36, 40) =~= b32(f32_bits(m.elasticity_falloff)));
    assert(d.subrange(40, 44) =~= b32(f32_bits(m.friction))); assert(d.subrange(44, 48) =~= b32(f32_bits(m.scatter_angle)));
    axiom_f32_bits(m.elasticity); axiom_f32_bits(m.elasticity_falloff); axiom_f32_bits(m.friction); axiom_f32_bits(m.scatter_angle);
    assert(d.skip(48) =~= r);
    assert(mk_string(m.name@) == m.name) by { broadcast use axiom_mk_string; }
}
