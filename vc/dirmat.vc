@@module dirmat src/vpx/expanded/materials.rs
@@noinline
@@broadcast vpin_base, vpin_str, vpin_seq, vpin_cfb, vpin_vfs
@@fn write_materials
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
@@subst to_writer_pretty\(&mut materials_file=>to_writer_pretty(&mut *materials_file
    requires expanded_dir.at().len() > 0,
    ensures
        final(fs).ok() == old(fs).ok(), old(fs).ok() ==> r is Ok,
        r is Ok ==> final(fs)@ == old(fs)@.insert(joined(expanded_dir.at(), "materials.json"@), mats_text(materials@)),
@@start
    proof { lemma_mat_keys(expanded_dir.at()); }
@@loop 0
    iter __it
    invariant
        __it.seq().len() == materials@.len(), forall|k: int| 0 <= k < materials@.len() ==> *(#[trigger] __it.seq()[k]) == materials@[k],
        __out1@.len() == __it.index(), forall|k: int| 0 <= k < __it.index() ==> #[trigger] __out1@[k] == mat_form(materials@[k]),
@@after_loop 0
    proof { assert(__out1@ =~= mat_forms(materials@)); }
@@fn read_materials
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
@@ret out
@@subst from_reader\(&mut materials_file\)=>from_reader(&mut *materials_file)
    requires expanded_dir.at().len() > 0,
    ensures
        final(fs)@ == old(fs)@, final(fs).ok() == old(fs).ok(),
        file_is(old(fs)@, expanded_dir.at(), "materials.json"@, None) ==> out is Ok && out->Ok_0 is None,
        old(fs).ok() ==> forall|m: Seq<Material>| mats_kept(m) && file_is(old(fs)@, expanded_dir.at(), "materials.json"@, Some(#[trigger] mats_text(m))) ==> out is Ok && out->Ok_0 is Some && (out->Ok_0->0)@ == m,
@@start
    let ghost __b = old(fs)@[joined(expanded_dir.at(), "materials.json"@)];
    proof { lemma_mat_keys(expanded_dir.at()); lemma_mats_there(__b); }
@@before_loop 0
    let ghost __q = materials_index@;
    proof { assert(fs@ =~= old(fs)@); assert(json_of::<Seq<MaterialJson>>(__b) == Some(__q)); }
@@loop 0
    iter __it
    invariant
        __it.seq() == __q, __out2@.len() == __it.index(), forall|k: int| 0 <= k < __it.index() ==> from_mat(__q[k], #[trigger] __out2@[k]),
@@after_loop 0
    proof { lemma_mats_read(__b, __q, __out2@); }
@@fn write_legacy_materials
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
    requires expanded_dir.at().len() > 0,
    ensures
        final(fs).ok() == old(fs).ok(), old(fs).ok() ==> r is Ok,
        r is Ok ==> final(fs)@ == legacy_put(old(fs)@, expanded_dir.at(), materials_old@, match materials_physics_old { Some(p) => Some(p@), None => None }),
@@fn write_old_materials
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
@@subst to_writer_pretty\(&mut materials_file=>to_writer_pretty(&mut *materials_file
    requires expanded_dir.at().len() > 0,
    ensures
        final(fs).ok() == old(fs).ok(), old(fs).ok() ==> r is Ok,
        r is Ok ==> final(fs)@ == old(fs)@.insert(joined(expanded_dir.at(), "materials-old.json"@), saves_text(materials_old@)),
@@start
    proof { lemma_mat_keys(expanded_dir.at()); }
@@loop 0
    iter __it
    invariant
        __it.seq().len() == materials_old@.len(), forall|k: int| 0 <= k < materials_old@.len() ==> *(#[trigger] __it.seq()[k]) == materials_old@[k],
        __out1@.len() == __it.index(), forall|k: int| 0 <= k < __it.index() ==> #[trigger] __out1@[k] == save_form(materials_old@[k]),
@@after_loop 0
    proof { assert(__out1@ =~= save_forms(materials_old@)); }
@@fn read_old_materials
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
@@ret out
@@subst from_reader\(&mut materials_file\)=>from_reader(&mut *materials_file)
    requires expanded_dir.at().len() > 0,
    ensures
        final(fs)@ == old(fs)@, final(fs).ok() == old(fs).ok(),
        file_is(old(fs)@, expanded_dir.at(), "materials-old.json"@, None) ==> out is Ok && out->Ok_0 is None,
        old(fs).ok() ==> forall|m: Seq<SaveMaterial>| saves_kept(m) && file_is(old(fs)@, expanded_dir.at(), "materials-old.json"@, Some(#[trigger] saves_text(m))) ==> out is Ok && out->Ok_0 is Some && (out->Ok_0->0)@ == m,
@@start
    let ghost __b = old(fs)@[joined(expanded_dir.at(), "materials-old.json"@)];
    proof { lemma_mat_keys(expanded_dir.at()); lemma_saves_there(__b); }
@@before_loop 0
    let ghost __q = materials_index@;
    proof { assert(fs@ =~= old(fs)@); assert(json_of::<Seq<SaveMaterialJson>>(__b) == Some(__q)); }
@@loop 0
    iter __it
    invariant
        __it.seq() == __q, __out2@.len() == __it.index(), forall|k: int| 0 <= k < __it.index() ==> from_save(__q[k], #[trigger] __out2@[k]),
@@after_loop 0
    proof { lemma_saves_read(__b, __q, __out2@); }
@@fn write_old_materials_physics
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
@@subst to_writer_pretty\(&mut materials_file=>to_writer_pretty(&mut *materials_file
    requires expanded_dir.at().len() > 0,
    ensures
        final(fs).ok() == old(fs).ok(), old(fs).ok() ==> r is Ok,
        r is Ok && materials_physics_old is Some ==> final(fs)@ == old(fs)@.insert(joined(expanded_dir.at(), "materials-physics-old.json"@), physs_text(materials_physics_old->0@)), r is Ok && materials_physics_old is None ==> final(fs)@ == old(fs)@,
@@start
    proof { lemma_mat_keys(expanded_dir.at()); }
@@loop 0
    iter __it
    invariant
        materials_physics_old is Some, materials@ == materials_physics_old->0@,
        __it.seq().len() == materials@.len(), forall|k: int| 0 <= k < materials@.len() ==> *(#[trigger] __it.seq()[k]) == materials@[k],
        __out1@.len() == __it.index(), forall|k: int| 0 <= k < __it.index() ==> #[trigger] __out1@[k] == phys_form(materials@[k]),
@@after_loop 0
    proof { assert(__out1@ =~= phys_forms(materials@)); }
@@fn read_old_materials_physics
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
@@ret out
@@subst from_reader\(&mut materials_file\)=>from_reader(&mut *materials_file)
    requires expanded_dir.at().len() > 0,
    ensures
        final(fs)@ == old(fs)@, final(fs).ok() == old(fs).ok(),
        file_is(old(fs)@, expanded_dir.at(), "materials-physics-old.json"@, None) ==> out is Ok && out->Ok_0 is None,
        old(fs).ok() ==> forall|m: Seq<SavePhysicsMaterial>| physs_kept(m) && file_is(old(fs)@, expanded_dir.at(), "materials-physics-old.json"@, Some(#[trigger] physs_text(m))) ==> out is Ok && out->Ok_0 is Some && (out->Ok_0->0)@ == m,
@@start
    let ghost __b = old(fs)@[joined(expanded_dir.at(), "materials-physics-old.json"@)];
    proof { lemma_mat_keys(expanded_dir.at()); lemma_physs_there(__b); }
@@before_loop 0
    let ghost __q = materials_index@;
    proof { assert(fs@ =~= old(fs)@); assert(json_of::<Seq<SavePhysicsMaterialJson>>(__b) == Some(__q)); }
@@loop 0
    iter __it
    invariant
        __it.seq() == __q, __out2@.len() == __it.index(), forall|k: int| 0 <= k < __it.index() ==> from_phys(__q[k], #[trigger] __out2@[k]),
@@after_loop 0
    proof { lemma_physs_read(__b, __q, __out2@); }
@@extra
/// assumed: a material comes back from its JSON form while that holds all of it (decided by the job json:parts)
#[verifier::external_body] pub struct Material { m: u8 }
#[verifier::external_body] pub struct MaterialJson { m: u8 }
pub uninterp spec fn mat_form(m: Material) -> MaterialJson;
pub uninterp spec fn mat_plain(m: Material) -> bool;
pub open spec fn from_mat(j: MaterialJson, r: Material) -> bool { forall|m: Material| mat_plain(m) && j == #[trigger] mat_form(m) ==> r == m }
impl MaterialJson {
    #[verifier::external_body] pub fn from_material(m: &Material) -> (r: MaterialJson) ensures r == mat_form(*m) { unimplemented!() }
    #[verifier::external_body] pub fn to_material(&self) -> (r: Material) ensures from_mat(*self, r) { unimplemented!() }
}
impl VJson for Vec<MaterialJson> { type J = Seq<MaterialJson>; open spec fn json(&self) -> Seq<MaterialJson> { self@ } }
pub open spec fn mat_forms(m: Seq<Material>) -> Seq<MaterialJson> { m.map_values(|y: Material| mat_form(y)) }
pub open spec fn mats_kept(m: Seq<Material>) -> bool { json_plain(mat_forms(m)) && forall|i: int| 0 <= i < m.len() ==> mat_plain(#[trigger] m[i]) }
pub open spec fn mats_text(m: Seq<Material>) -> Seq<u8> { json_text(mat_forms(m)) }
/// what the file holds is what comes back
pub proof fn lemma_mats_read(b: Seq<u8>, j: Seq<MaterialJson>, r: Seq<Material>)
    requires json_of::<Seq<MaterialJson>>(b) == Some(j), r.len() == j.len(), forall|i: int| 0 <= i < r.len() ==> from_mat(j[i], #[trigger] r[i]),
    ensures forall|m: Seq<Material>| mats_kept(m) && b == #[trigger] mats_text(m) ==> r == m,
{
    broadcast use axiom_json;
    assert forall|m: Seq<Material>| mats_kept(m) && b == #[trigger] mats_text(m) implies r == m by {
        assert(j == mat_forms(m));
        assert forall|i: int| 0 <= i < r.len() implies r[i] == m[i] by { assert(j[i] == mat_form(m[i])); assert(from_mat(j[i], r[i])); assert(mat_plain(m[i])); }
        assert(r =~= m);
    }
}
pub proof fn lemma_mats_there(b: Seq<u8>)
    ensures forall|m: Seq<Material>| mats_kept(m) && b == #[trigger] mats_text(m) ==> json_of::<Seq<MaterialJson>>(b) is Some,
{ broadcast use axiom_json; }
/// assumed: a material's old form comes back from its JSON form while that holds all of it (decided by the job json:parts)
#[verifier::external_body] pub struct SaveMaterial { m: u8 }
#[verifier::external_body] pub struct SaveMaterialJson { m: u8 }
pub uninterp spec fn save_form(m: SaveMaterial) -> SaveMaterialJson;
pub uninterp spec fn save_plain(m: SaveMaterial) -> bool;
pub open spec fn from_save(j: SaveMaterialJson, r: SaveMaterial) -> bool { forall|m: SaveMaterial| save_plain(m) && j == #[trigger] save_form(m) ==> r == m }
impl SaveMaterialJson {
    #[verifier::external_body] pub fn from_save_material(m: &SaveMaterial) -> (r: SaveMaterialJson) ensures r == save_form(*m) { unimplemented!() }
    #[verifier::external_body] pub fn to_save_material(&self) -> (r: SaveMaterial) ensures from_save(*self, r) { unimplemented!() }
}
impl VJson for Vec<SaveMaterialJson> { type J = Seq<SaveMaterialJson>; open spec fn json(&self) -> Seq<SaveMaterialJson> { self@ } }
pub open spec fn save_forms(m: Seq<SaveMaterial>) -> Seq<SaveMaterialJson> { m.map_values(|y: SaveMaterial| save_form(y)) }
pub open spec fn saves_kept(m: Seq<SaveMaterial>) -> bool { json_plain(save_forms(m)) && forall|i: int| 0 <= i < m.len() ==> save_plain(#[trigger] m[i]) }
pub open spec fn saves_text(m: Seq<SaveMaterial>) -> Seq<u8> { json_text(save_forms(m)) }
/// what the file holds is what comes back
pub proof fn lemma_saves_read(b: Seq<u8>, j: Seq<SaveMaterialJson>, r: Seq<SaveMaterial>)
    requires json_of::<Seq<SaveMaterialJson>>(b) == Some(j), r.len() == j.len(), forall|i: int| 0 <= i < r.len() ==> from_save(j[i], #[trigger] r[i]),
    ensures forall|m: Seq<SaveMaterial>| saves_kept(m) && b == #[trigger] saves_text(m) ==> r == m,
{
    broadcast use axiom_json;
    assert forall|m: Seq<SaveMaterial>| saves_kept(m) && b == #[trigger] saves_text(m) implies r == m by {
        assert(j == save_forms(m));
        assert forall|i: int| 0 <= i < r.len() implies r[i] == m[i] by { assert(j[i] == save_form(m[i])); assert(from_save(j[i], r[i])); assert(save_plain(m[i])); }
        assert(r =~= m);
    }
}
pub proof fn lemma_saves_there(b: Seq<u8>)
    ensures forall|m: Seq<SaveMaterial>| saves_kept(m) && b == #[trigger] saves_text(m) ==> json_of::<Seq<SaveMaterialJson>>(b) is Some,
{ broadcast use axiom_json; }
/// assumed: a material's old physics comes back from its JSON form while that holds all of it (decided by the job json:parts)
#[verifier::external_body] pub struct SavePhysicsMaterial { m: u8 }
#[verifier::external_body] pub struct SavePhysicsMaterialJson { m: u8 }
pub uninterp spec fn phys_form(m: SavePhysicsMaterial) -> SavePhysicsMaterialJson;
pub uninterp spec fn phys_plain(m: SavePhysicsMaterial) -> bool;
pub open spec fn from_phys(j: SavePhysicsMaterialJson, r: SavePhysicsMaterial) -> bool { forall|m: SavePhysicsMaterial| phys_plain(m) && j == #[trigger] phys_form(m) ==> r == m }
impl SavePhysicsMaterialJson {
    #[verifier::external_body] pub fn from_save_physics_material(m: &SavePhysicsMaterial) -> (r: SavePhysicsMaterialJson) ensures r == phys_form(*m) { unimplemented!() }
    #[verifier::external_body] pub fn to_save_physics_material(&self) -> (r: SavePhysicsMaterial) ensures from_phys(*self, r) { unimplemented!() }
}
impl VJson for Vec<SavePhysicsMaterialJson> { type J = Seq<SavePhysicsMaterialJson>; open spec fn json(&self) -> Seq<SavePhysicsMaterialJson> { self@ } }
pub open spec fn phys_forms(m: Seq<SavePhysicsMaterial>) -> Seq<SavePhysicsMaterialJson> { m.map_values(|y: SavePhysicsMaterial| phys_form(y)) }
pub open spec fn physs_kept(m: Seq<SavePhysicsMaterial>) -> bool { json_plain(phys_forms(m)) && forall|i: int| 0 <= i < m.len() ==> phys_plain(#[trigger] m[i]) }
pub open spec fn physs_text(m: Seq<SavePhysicsMaterial>) -> Seq<u8> { json_text(phys_forms(m)) }
/// what the file holds is what comes back
pub proof fn lemma_physs_read(b: Seq<u8>, j: Seq<SavePhysicsMaterialJson>, r: Seq<SavePhysicsMaterial>)
    requires json_of::<Seq<SavePhysicsMaterialJson>>(b) == Some(j), r.len() == j.len(), forall|i: int| 0 <= i < r.len() ==> from_phys(j[i], #[trigger] r[i]),
    ensures forall|m: Seq<SavePhysicsMaterial>| physs_kept(m) && b == #[trigger] physs_text(m) ==> r == m,
{
    broadcast use axiom_json;
    assert forall|m: Seq<SavePhysicsMaterial>| physs_kept(m) && b == #[trigger] physs_text(m) implies r == m by {
        assert(j == phys_forms(m));
        assert forall|i: int| 0 <= i < r.len() implies r[i] == m[i] by { assert(j[i] == phys_form(m[i])); assert(from_phys(j[i], r[i])); assert(phys_plain(m[i])); }
        assert(r =~= m);
    }
}
pub proof fn lemma_physs_there(b: Seq<u8>)
    ensures forall|m: Seq<SavePhysicsMaterial>| physs_kept(m) && b == #[trigger] physs_text(m) ==> json_of::<Seq<SavePhysicsMaterialJson>>(b) is Some,
{ broadcast use axiom_json; }
pub proof fn lemma_mat_keys(dir: Seq<char>) requires dir.len() > 0
    ensures
        norm("materials.json"@) == "materials.json"@, norm(joined(dir, "materials.json"@)) == joined(dir, "materials.json"@), owns(dir, "materials"@, joined(dir, "materials.json"@)),
        norm("materials-old.json"@) == "materials-old.json"@, norm(joined(dir, "materials-old.json"@)) == joined(dir, "materials-old.json"@), owns(dir, "materials-old"@, joined(dir, "materials-old.json"@)),
        norm("materials-physics-old.json"@) == "materials-physics-old.json"@, norm(joined(dir, "materials-physics-old.json"@)) == joined(dir, "materials-physics-old.json"@), owns(dir, "materials-physics-old"@, joined(dir, "materials-physics-old.json"@)),
{
    reveal_strlit("materials"); reveal_strlit("materials.json"); assert("materials.json"@.subrange(0, "materials"@.len() as int) =~= "materials"@); lemma_file_of(dir, "materials"@, "materials.json"@);
    reveal_strlit("materials-old"); reveal_strlit("materials-old.json"); assert("materials-old.json"@.subrange(0, "materials-old"@.len() as int) =~= "materials-old"@); lemma_file_of(dir, "materials-old"@, "materials-old.json"@);
    reveal_strlit("materials-physics-old"); reveal_strlit("materials-physics-old.json"); assert("materials-physics-old.json"@.subrange(0, "materials-physics-old"@.len() as int) =~= "materials-physics-old"@); lemma_file_of(dir, "materials-physics-old"@, "materials-physics-old.json"@);
}
/// the files of the old forms of materials
pub open spec fn legacy_put(m: Map<Seq<char>, Seq<u8>>, dir: Seq<char>, s: Seq<SaveMaterial>, p: Option<Seq<SavePhysicsMaterial>>) -> Map<Seq<char>, Seq<u8>> {
    let a = m.insert(joined(dir, "materials-old.json"@), saves_text(s));
    match p { Some(x) => a.insert(joined(dir, "materials-physics-old.json"@), physs_text(x)), None => a }
}
