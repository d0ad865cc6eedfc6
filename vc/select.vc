@@module select src/vpx/gameitem/select.rs
@@broadcast vpin_base, vpin_str, vpin_seq, vpin_rd
@@item struct TimerData
@@fn TimerData::biff_read_tag
    requires old(reader).wf(), tag_plain(tag@), tm_has(code_of(tag@)) ==> tm_step(*old(self), code_of(tag@), old(reader).cur()) is Some,
    ensures r == tm_has(code_of(tag@)), r ==> Some(*final(self)) == tm_step(*old(self), code_of(tag@), old(reader).cur()) && final(reader).took(old(reader), 4),
        !r ==> *final(self) == *old(self) && *final(reader) == *old(reader),
@@start
    proof { lit_TMON(); lit_TMIN(); }
@@fn TimerData::biff_write_tmon
    requires old(writer).wf(), old(writer).open() ==> old(writer).record_size <= u32::MAX,
    ensures final(writer).wf(), !final(writer).open(), final(writer).data@ == old(writer).done() + enc_rec("TMON"@, pl_bool(self.is_enabled)),
@@start
    proof { lit_TMON(); lit_TMIN(); reveal_strlit(""); }
@@fn TimerData::biff_write_tmin
    requires old(writer).wf(), old(writer).open() ==> old(writer).record_size <= u32::MAX,
    ensures final(writer).wf(), !final(writer).open(), final(writer).data@ == old(writer).done() + enc_rec("TMIN"@, pl_i32(self.interval)),
@@start
    proof { lit_TMON(); lit_TMIN(); reveal_strlit(""); }
@@fn TimerData::biff_write
    requires old(writer).wf(), old(writer).open() ==> old(writer).record_size <= u32::MAX,
    ensures final(writer).wf(), !final(writer).open(), final(writer).data@ == old(writer).done() + enc_rec("TMON"@, pl_bool(self.is_enabled)) + enc_rec("TMIN"@, pl_i32(self.interval)),
@@start
    proof { lit_TMON(); lit_TMIN(); reveal_strlit(""); }
@@extra
pub open spec fn tm_has(c: int) -> bool { c == 368344607900356778655828 || c == 368344606211506918391892 }
pub open spec fn tm_step(t: TimerData, c: int, p: Seq<u8>) -> Option<TimerData> {
    if p.len() < 4 { None }
    else if c == 368344607900356778655828 { Some(TimerData { is_enabled: u32_at(p, 0) != 0, ..t }) }
    else if c == 368344606211506918391892 { Some(TimerData { interval: u32_at(p, 0) as i32, ..t }) }
    else { None }
}
/// tags of the attributes every selectable item shares
pub open spec fn sh_has(c: int) -> bool { c == 354177505074048156041292 || c == 387234076646584925290572 || c == 387234073550360181473356 || c == 377789342554946013233223 || c == 391956438625855295455308 }

// ---- decoding of the payload encodings
pub broadcast proof fn lemma_empty_add(e: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + e) == e { assert(Seq::<u8>::empty() + e =~= e); }
pub broadcast proof fn lemma_u32_pl1(x: u32) ensures #[trigger] u32_at(b32(x), 0) == x, b32(x).len() == 4 { broadcast use vpin_base; assert(b32(x).subrange(0, 4) =~= b32(x)); }
pub broadcast proof fn lemma_u32_pre(a: u32, e: Seq<u8>)
    ensures u32_at(#[trigger] (b32(a) + e), 0) == a, (b32(a) + e).len() == 4 + e.len(),
{ broadcast use vpin_base; assert((b32(a) + e).subrange(0, 4) =~= b32(a)); }
pub broadcast proof fn lemma_pl2(a: u32, b: u32)
    ensures u32_at(#[trigger] (b32(a) + b32(b)), 0) == a, u32_at(b32(a) + b32(b), 4) == b, (b32(a) + b32(b)).len() == 8,
{ broadcast use vpin_base; let s = b32(a) + b32(b); assert(s.subrange(0, 4) =~= b32(a)); assert(s.subrange(4, 8) =~= b32(b)); }
pub broadcast proof fn lemma_pl3(a: u32, b: u32, c: u32)
    ensures u32_at(#[trigger] (b32(a) + b32(b) + b32(c)), 0) == a, u32_at((b32(a) + b32(b) + b32(c)), 4) == b, u32_at((b32(a) + b32(b) + b32(c)), 8) == c, (b32(a) + b32(b) + b32(c)).len() == 12,
{ broadcast use vpin_base; let s = b32(a) + b32(b) + b32(c); assert(s.subrange(0, 4) =~= b32(a)); assert(s.subrange(4, 8) =~= b32(b)); assert(s.subrange(8, 12) =~= b32(c)); }
pub broadcast proof fn lemma_pl4(a: u32, b: u32, c: u32, d: u32)
    ensures u32_at(#[trigger] (b32(a) + b32(b) + b32(c) + b32(d)), 0) == a, u32_at((b32(a) + b32(b) + b32(c) + b32(d)), 4) == b, u32_at((b32(a) + b32(b) + b32(c) + b32(d)), 8) == c, u32_at((b32(a) + b32(b) + b32(c) + b32(d)), 12) == d, (b32(a) + b32(b) + b32(c) + b32(d)).len() == 16,
{ broadcast use vpin_base; let s = b32(a) + b32(b) + b32(c) + b32(d); assert(s.subrange(0, 4) =~= b32(a)); assert(s.subrange(4, 8) =~= b32(b)); assert(s.subrange(8, 12) =~= b32(c)); assert(s.subrange(12, 16) =~= b32(d)); }
pub broadcast proof fn lemma_pl_bool(x: bool) ensures (#[trigger] pl_bool(x)).len() == 4, (u32_at(pl_bool(x), 0) != 0) == x { lemma_u32_pl1(1); lemma_u32_pl1(0); }
/// texts an 8-bit string record can carry
pub open spec fn str_valid(s: Seq<char>) -> bool { is_latin1(s) && no_nul(s) && s.len() <= 0x7fff_ffff }
pub open spec fn wstr_valid(s: Seq<char>) -> bool { utf16_enc(s).len() <= 0x7fff_ffff }
pub broadcast proof fn lemma_pl_str(s: Seq<char>)
    requires str_valid(s),
    ensures (#[trigger] pl_str(s)).len() == 4 + s.len(), ({ let p = pl_str(s); p.len() == 4 + s.len() && p.len() >= 4 + u32_at(p, 0) && u32_at(p, 0) == s.len() && latin1_dec(until0(p.subrange(4, 4 + u32_at(p, 0)))) == s }),
{
    let p = pl_str(s);
    lemma_latin1(s);
    lemma_u32_pre(s.len() as u32, latin1_enc(s));
    assert(p.subrange(4, 4 + u32_at(p, 0)) =~= latin1_enc(s));
    lemma_until0(latin1_enc(s), s.len() as int);
    assert(latin1_enc(s).take(s.len() as int) =~= latin1_enc(s));
}
pub broadcast proof fn lemma_pl_wide(s: Seq<char>)
    requires wstr_valid(s),
    ensures (#[trigger] pl_wide(s)).len() >= 4, ({ let p = pl_wide(s); p.len() >= 4 && p.len() >= 4 + u32_at(p, 0) && p.len() == 4 + utf16_enc(s).len() && utf16_ok(p.subrange(4, 4 + u32_at(p, 0))) && utf16_dec(p.subrange(4, 4 + u32_at(p, 0))) == s }),
{
    broadcast use vpin_str;
    let p = pl_wide(s);
    lemma_u32_pre(utf16_enc(s).len() as u32, utf16_enc(s));
    assert(p.subrange(4, 4 + u32_at(p, 0)) =~= utf16_enc(s));
}
pub broadcast proof fn lemma_v2_bits_x(v: Vertex2D) ensures f32_of_bits(#[trigger] f32_bits(v.x)) == v.x { axiom_f32_bits(v.x); }
pub broadcast proof fn lemma_v2_bits_y(v: Vertex2D) ensures f32_of_bits(#[trigger] f32_bits(v.y)) == v.y { axiom_f32_bits(v.y); }
pub broadcast proof fn lemma_v3_bits_x(v: Vertex3D) ensures f32_of_bits(#[trigger] f32_bits(v.x)) == v.x { axiom_f32_bits(v.x); }
pub broadcast proof fn lemma_v3_bits_y(v: Vertex3D) ensures f32_of_bits(#[trigger] f32_bits(v.y)) == v.y { axiom_f32_bits(v.y); }
pub broadcast proof fn lemma_v3_bits_z(v: Vertex3D) ensures f32_of_bits(#[trigger] f32_bits(v.z)) == v.z { axiom_f32_bits(v.z); }
pub broadcast proof fn lemma_v4_bits_x(v: Vertex4D) ensures f32_of_bits(#[trigger] f32_bits(v.x)) == v.x { axiom_f32_bits(v.x); }
pub broadcast proof fn lemma_v4_bits_y(v: Vertex4D) ensures f32_of_bits(#[trigger] f32_bits(v.y)) == v.y { axiom_f32_bits(v.y); }
pub broadcast proof fn lemma_v4_bits_z(v: Vertex4D) ensures f32_of_bits(#[trigger] f32_bits(v.z)) == v.z { axiom_f32_bits(v.z); }
pub broadcast proof fn lemma_v4_bits_w(v: Vertex4D) ensures f32_of_bits(#[trigger] f32_bits(v.w)) == v.w { axiom_f32_bits(v.w); }
pub broadcast proof fn lemma_pl_i32(x: i32) ensures (#[trigger] pl_i32(x)).len() == 4, u32_at(pl_i32(x), 0) as i32 == x { lemma_u32_pl1(x as u32); assert((x as u32) as i32 == x) by (bit_vector); }
pub broadcast group vpin_pl { lemma_pl_i32, lemma_v2_bits_x, lemma_v2_bits_y, lemma_v3_bits_x, lemma_v3_bits_y, lemma_v3_bits_z, lemma_v4_bits_x, lemma_v4_bits_y, lemma_v4_bits_z, lemma_v4_bits_w, lemma_empty_add, lemma_u32_pl1, lemma_u32_pre, lemma_pl2, lemma_pl3, lemma_pl4, lemma_pl_bool, lemma_pl_str, lemma_pl_wide }
pub open spec fn arr_upd<T, const N: usize>(a: [T; N], i: int, v: T) -> [T; N] { choose|b: [T; N]| b@ == a@.update(i, v) }
pub open spec fn p_val<A>(o: Option<(A, Seq<u8>)>) -> A { match o { Some((a, _r)) => a, None => arbitrary() } }
pub open spec fn p_rest<A>(o: Option<(A, Seq<u8>)>) -> Seq<u8> { match o { Some((_a, r)) => r, None => arbitrary() } }
/// every sequence of the right length is the view of an array
pub axiom fn axiom_array_exists<T, const N: usize>(s: Seq<T>) requires s.len() == N, ensures exists|b: [T; N]| b@ == s;
pub proof fn lemma_arr_upd<T, const N: usize>(a: [T; N], b: [T; N], i: int, v: T)
    requires b@ == a@.update(i, v),
    ensures arr_upd(a, i, v) == b,
{
    let c = arr_upd(a, i, v);
    assert(c@ == b@);
    assert(c =~= b);
}
pub broadcast proof fn lemma_arr_upd_view<T, const N: usize>(a: [T; N], i: int, v: T)
    ensures #[trigger] arr_upd(a, i, v)@ == a@.update(i, v),
{
    assert(a@.update(i, v).len() == N);
    axiom_array_exists::<T, N>(a@.update(i, v));
}
