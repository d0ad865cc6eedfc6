@@module dirtable src/vpx/expanded/mod.rs
@@noinline
@@broadcast vpin_base, vpin_str, vpin_seq, vpin_cfb, vpin_vfs
@@fn validate_material_conversion
@@external
    ensures true,
@@fn write_fs
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
@@subst version_file\.write_all\(version_string\.as_bytes\(\)\)\?;=>version_file.write_all(version_string.as_bytes())?; proof { lemma_put(__ms, expanded_dir.at(), *vpx, 0, fs@, "version.txt"@); __ms = __ms.push(fs@); }
@@subst screenshot_file\.write_all\(screenshot\)\?;\s*\} else \{\s*\}=>screenshot_file.write_all(screenshot.as_slice())?; } else { }; proof { lemma_put(__ms, expanded_dir.at(), *vpx, 1, fs@, "screenshot.png"@); __ms = __ms.push(fs@); }
@@subst (write_info\([^;]*;)=>\1 proof { lemma_put(__ms, expanded_dir.at(), *vpx, 2, fs@, "info.json"@); __ms = __ms.push(fs@); }
@@subst (write_collections\([^;]*;)=>\1 proof { lemma_put(__ms, expanded_dir.at(), *vpx, 3, fs@, "collections.json"@); __ms = __ms.push(fs@); }
@@subst (write_gameitems\([^;]*;)=>\1 proof { reveal(part_ok); lemma_next(__ms, expanded_dir.at(), *vpx, 4, fs@); __ms = __ms.push(fs@); }
@@subst (write_images\([^;]*;)=>\1 proof { reveal(part_ok); lemma_next(__ms, expanded_dir.at(), *vpx, 5, fs@); __ms = __ms.push(fs@); }
@@subst (write_sounds\([^;]*;)=>\1 proof { reveal(part_ok); lemma_next(__ms, expanded_dir.at(), *vpx, 6, fs@); __ms = __ms.push(fs@); }
@@subst (write_fonts\([^;]*;)=>\1 proof { reveal(part_ok); lemma_next(__ms, expanded_dir.at(), *vpx, 7, fs@); __ms = __ms.push(fs@); }
@@subst (write_game_data\([^;]*;)=>\1 proof { lemma_gamedata(__ms, expanded_dir.at(), *vpx, fs@); __ms = after_gamedata(__ms, expanded_dir.at(), *vpx, fs@); }
@@subst (write_renderprobes\([^;]*;)=>proof { lemma_materials(__ms, expanded_dir.at(), *vpx, fs@); __ms = after_materials(__ms, expanded_dir.at(), *vpx, fs@); } \1 proof { lemma_put(__ms, expanded_dir.at(), *vpx, 13, fs@, "renderprobes.json"@); __ms = __ms.push(fs@); } proof { lemma_all(__ms, expanded_dir.at(), *vpx); }
    requires expanded_dir.at().len() > 0, whole(*vpx), clear(old(fs)@, expanded_dir.at()),
    ensures
        final(fs).ok() == old(fs).ok(),
        r is Ok ==> vpx_stored(final(fs)@, expanded_dir.at(), *vpx),
@@start
    let ghost mut __ms: Seq<Files> = seq![old(fs)@];
    proof { lemma_table_keys(expanded_dir.at()); lemma_first(expanded_dir.at(), *vpx, old(fs)@); }
@@fn read_fs
@@ret out
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs, Ghost(__v): Ghost<VPX>
    requires expanded_dir.at().len() > 0,
    ensures
        final(fs)@ == old(fs)@, final(fs).ok() == old(fs).ok(),
        old(fs).ok() && whole(__v) && vpx_stored(old(fs)@, expanded_dir.at(), __v) ==> out is Ok && same_vpx(__v, out->Ok_0),
@@start
    proof {
        lemma_table_keys(expanded_dir.at());
        if vpx_stored(old(fs)@, expanded_dir.at(), __v) { lemma_open(old(fs)@, expanded_dir.at(), __v); vstd::utf8::encode_utf8_valid_utf8(dec_text(__v.version.0 as int)); vstd::utf8::encode_utf8_decode_utf8(dec_text(__v.version.0 as int)); }
    }
@@post
    if old(fs).ok() && whole(__v) && vpx_stored(old(fs)@, expanded_dir.at(), __v) {
        let o = __ret->Ok_0;
        assert(colls(__v.collections@).len() == colls(o.collections@).len());
        assert(same_items(__v.gamedata.materials, o.gamedata.materials));
    }
@@loop 0
    iter __it
    invariant
        __it.seq().len() == materials@.len(), forall|k: int| 0 <= k < materials@.len() ==> *(#[trigger] __it.seq()[k]) == materials@[k],
        __out1@.len() == __it.index(), forall|k: int| 0 <= k < __it.index() ==> #[trigger] __out1@[k] == save_of(materials@[k]),
@@after_loop 0
    proof { assert(__out1@ =~= saves_of(materials@)); }
@@loop 1
    iter __it
    invariant
        __it.seq().len() == materials@.len(), forall|k: int| 0 <= k < materials@.len() ==> *(#[trigger] __it.seq()[k]) == materials@[k],
        __out3@.len() == __it.index(), forall|k: int| 0 <= k < __it.index() ==> #[trigger] __out3@[k] == phys_of(materials@[k]),
@@after_loop 1
    proof { assert(__out3@ =~= physs_of(materials@)); }
@@extra
#[verifier::external_body] pub struct ExpandOptions { o: u8 }
#[verifier::external_body] pub struct GameItemEnum { g: u8 }
#[verifier::external_body] pub struct ImageData { g: u8 }
/// assumed: the old forms that are made of a material (decided by the job savemat)
pub uninterp spec fn save_of(m: Material) -> SaveMaterial;
pub uninterp spec fn phys_of(m: Material) -> SavePhysicsMaterial;
pub open spec fn saves_of(m: Seq<Material>) -> Seq<SaveMaterial> { m.map_values(|x: Material| save_of(x)) }
pub open spec fn physs_of(m: Seq<Material>) -> Seq<SavePhysicsMaterial> { m.map_values(|x: Material| phys_of(x)) }
impl SaveMaterial { #[verifier::external_body] pub fn from(m: &Material) -> (r: SaveMaterial) ensures r == save_of(*m) { unimplemented!() } }
impl SavePhysicsMaterial { #[verifier::external_body] pub fn from(m: &Material) -> (r: SavePhysicsMaterial) ensures r == phys_of(*m) { unimplemented!() } }
/// assumed: game items and images are kept in the files of their part, and read from them (decided by bounded runs)
pub uninterp spec fn items_kept(x: Seq<GameItemEnum>) -> bool;
pub uninterp spec fn items_stored(m: Files, dir: Seq<char>, x: Seq<GameItemEnum>) -> bool;
pub axiom fn axiom_items_stay(a: Files, b: Files, dir: Seq<char>, x: Seq<GameItemEnum>) requires items_stored(a, dir, x), agree(a, b, dir, "gameitems"@) ensures items_stored(b, dir, x);
#[verifier::external_body] pub fn write_gameitems<P: VAsPath>(x: &Vec<GameItemEnum>, dir: &P, options: &ExpandOptions, fs: &mut Fs) -> (r: Result<(), Error>)
    ensures final(fs).ok() == old(fs).ok(), r is Ok ==> only(old(fs)@, final(fs)@, dir.at(), "gameitems"@) && (items_kept(x@) ==> items_stored(final(fs)@, dir.at(), x@)) { unimplemented!() }
#[verifier::external_body] pub fn read_gameitems<P: VAsPath>(dir: &P, fs: &mut Fs) -> (r: Result<Vec<GameItemEnum>, Error>)
    ensures final(fs)@ == old(fs)@, final(fs).ok() == old(fs).ok(), old(fs).ok() ==> forall|x: Seq<GameItemEnum>| #[trigger] items_stored(old(fs)@, dir.at(), x) ==> r is Ok && r->Ok_0@ == x { unimplemented!() }
pub uninterp spec fn images_kept(x: Seq<ImageData>) -> bool;
pub uninterp spec fn images_stored(m: Files, dir: Seq<char>, x: Seq<ImageData>) -> bool;
pub axiom fn axiom_images_stay(a: Files, b: Files, dir: Seq<char>, x: Seq<ImageData>) requires images_stored(a, dir, x), agree(a, b, dir, "images"@) ensures images_stored(b, dir, x);
#[verifier::external_body] pub fn write_images<P: VAsPath>(x: &Vec<ImageData>, dir: &P, fs: &mut Fs) -> (r: Result<(), Error>)
    ensures final(fs).ok() == old(fs).ok(), r is Ok ==> only(old(fs)@, final(fs)@, dir.at(), "images"@) && (images_kept(x@) ==> images_stored(final(fs)@, dir.at(), x@)) { unimplemented!() }
#[verifier::external_body] pub fn read_images<P: VAsPath>(dir: &P, fs: &mut Fs) -> (r: Result<Vec<ImageData>, Error>)
    ensures final(fs)@ == old(fs)@, final(fs).ok() == old(fs).ok(), old(fs).ok() ==> forall|x: Seq<ImageData>| #[trigger] images_stored(old(fs)@, dir.at(), x) ==> r is Ok && r->Ok_0@ == x { unimplemented!() }
/// a table the directory form can hold: its numbers are finite, its names are plain, its script is text of its encoding
pub open spec fn whole(v: VPX) -> bool {
    &&& v.sounds@.len() <= 30000 && v.fonts@.len() <= 30000
    &&& forall|i: int| 0 <= i < v.sounds@.len() ==> (#[trigger] v.sounds@[i]).data@.len() + 44 <= u32::MAX
    &&& keepable(v.sounds@) && plain_font_names(v.fonts@) && items_kept(v.gameitems@) && images_kept(v.images@)
    &&& swe_canon(swe_view(v.gamedata.code)) && gd_kept(v.gamedata.rest)
    &&& (v.gamedata.materials is Some ==> mats_kept((v.gamedata.materials->0)@))
    &&& (v.gamedata.materials is None ==> saves_kept(v.gamedata.materials_old@) && (v.gamedata.materials_physics_old is Some ==> physs_kept((v.gamedata.materials_physics_old->0)@)))
    &&& (v.gamedata.render_probes is Some ==> probes_kept((v.gamedata.render_probes->0)@))
}
/// what a part's files hold
#[verifier::opaque] pub open spec fn part_ok(m: Files, dir: Seq<char>, v: VPX, k: int) -> bool {
    if k == 0 { file_is(m, dir, "version.txt"@, Some(vstd::utf8::encode_utf8(dec_text(v.version.0 as int)))) }
    else if k == 1 { file_is(m, dir, "screenshot.png"@, obytes(v.info.screenshot)) }
    else if k == 2 { file_is(m, dir, "info.json"@, Some(info_text(InfoJ { v: info_view(v.info), order: texts(v.custominfotags@) }))) }
    else if k == 3 { file_is(m, dir, "collections.json"@, Some(colls_text(colls(v.collections@)))) }
    else if k == 4 { items_stored(m, dir, v.gameitems@) }
    else if k == 5 { images_stored(m, dir, v.images@) }
    else if k == 6 { sounds_stored(m, dir, v.sounds@) }
    else if k == 7 { fonts_stored(m, dir, v.fonts@) }
    else if k == 8 { file_is(m, dir, "gamedata.json"@, Some(gd_text(v.gamedata.rest))) }
    else if k == 9 { file_is(m, dir, "script.vbs"@, Some(swe_bytes(swe_view(v.gamedata.code)))) }
    else if k == 10 { file_is(m, dir, "materials.json"@, match v.gamedata.materials { Some(x) => Some(mats_text(x@)), None => None }) }
    else if k == 11 { file_is(m, dir, "materials-old.json"@, match v.gamedata.materials { Some(_) => None, None => Some(saves_text(v.gamedata.materials_old@)) }) }
    else if k == 12 { file_is(m, dir, "materials-physics-old.json"@, match v.gamedata.materials { Some(_) => None, None => match v.gamedata.materials_physics_old { Some(x) => Some(physs_text(x@)), None => None } }) }
    else { file_is(m, dir, "renderprobes.json"@, match v.gamedata.render_probes { Some(x) => Some(probes_text(x@)), None => None }) }
}
/// the files of a directory that hold this table
#[verifier::opaque] pub open spec fn vpx_stored(m: Files, dir: Seq<char>, v: VPX) -> bool { forall|k: int| 0 <= k < 14 ==> #[trigger] part_ok(m, dir, v, k) }
/// the first n parts were written
#[verifier::opaque] pub open spec fn done(m: Seq<Files>, dir: Seq<char>, v: VPX, n: int) -> bool {
    m.len() == n + 1 && steps(m, dir, n) && clear(m[0], dir) && forall|k: int| 0 <= k < n ==> #[trigger] part_ok(m[k + 1], dir, v, k)
}
pub proof fn lemma_first(dir: Seq<char>, v: VPX, m: Files) requires clear(m, dir) ensures done(seq![m], dir, v, 0), seq![m].last() == m { reveal(done); reveal(steps); }
pub proof fn lemma_next(m: Seq<Files>, dir: Seq<char>, v: VPX, n: int, x: Files)
    requires 0 <= n < 14, done(m, dir, v, n), only(m.last(), x, dir, parts(n)), part_ok(x, dir, v, n),
    ensures done(m.push(x), dir, v, n + 1), m.push(x).last() == x,
{
    reveal(done);
    lemma_step(m, dir, n, x);
    let w = m.push(x);
    assert forall|k: int| 0 <= k < n + 1 implies #[trigger] part_ok(w[k + 1], dir, v, k) by { if k < n { assert(part_ok(m[k + 1], dir, v, k)); } }
}
/// what the file of a part of one file holds
pub open spec fn file_of(v: VPX, k: int) -> Option<Seq<u8>> {
    if k == 0 { Some(vstd::utf8::encode_utf8(dec_text(v.version.0 as int))) }
    else if k == 1 { obytes(v.info.screenshot) }
    else if k == 2 { Some(info_text(InfoJ { v: info_view(v.info), order: texts(v.custominfotags@) })) }
    else if k == 3 { Some(colls_text(colls(v.collections@))) }
    else if k == 8 { Some(gd_text(v.gamedata.rest)) }
    else if k == 9 { Some(swe_bytes(swe_view(v.gamedata.code))) }
    else if k == 10 { match v.gamedata.materials { Some(x) => Some(mats_text(x@)), None => None } }
    else if k == 11 { match v.gamedata.materials { Some(_) => None, None => Some(saves_text(v.gamedata.materials_old@)) } }
    else if k == 12 { match v.gamedata.materials { Some(_) => None, None => match v.gamedata.materials_physics_old { Some(x) => Some(physs_text(x@)), None => None } } }
    else { match v.gamedata.render_probes { Some(x) => Some(probes_text(x@)), None => None } }
}
pub open spec fn name_of(k: int) -> Seq<char> {
    if k == 0 { "version.txt"@ }
    else if k == 1 { "screenshot.png"@ }
    else if k == 2 { "info.json"@ }
    else if k == 3 { "collections.json"@ }
    else if k == 8 { "gamedata.json"@ }
    else if k == 9 { "script.vbs"@ }
    else if k == 10 { "materials.json"@ }
    else if k == 11 { "materials-old.json"@ }
    else if k == 12 { "materials-physics-old.json"@ }
    else { "renderprobes.json"@ }
}
pub open spec fn one_file(k: int) -> bool { 0 <= k < 14 && !(4 <= k <= 7) }
pub proof fn lemma_part_file(m: Files, dir: Seq<char>, v: VPX, k: int) requires one_file(k) ensures part_ok(m, dir, v, k) == file_is(m, dir, name_of(k), file_of(v, k)) { reveal(part_ok); }
/// before its turn a part has no files
pub proof fn lemma_before(m: Seq<Files>, dir: Seq<char>, v: VPX, n: int)
    requires dir.len() > 0, one_file(n), done(m, dir, v, n),
    ensures !m.last().contains_key(joined(dir, name_of(n))),
{
    reveal(done);
    lemma_table_keys(dir);
    lemma_chain(m, dir, n, 0, n, n);
    lemma_same_file(m[0], m[n], dir, parts(n), name_of(n), None);
}
/// a part of one file, written or left out
pub proof fn lemma_put(m: Seq<Files>, dir: Seq<char>, v: VPX, n: int, x: Files, name: Seq<char>)
    requires dir.len() > 0, one_file(n), done(m, dir, v, n), name == name_of(n), x == (match file_of(v, n) { Some(b) => m.last().insert(joined(dir, name), b), None => m.last() }),
    ensures done(m.push(x), dir, v, n + 1), m.push(x).last() == x,
{
    broadcast use lemma_only_self;
    lemma_table_keys(dir);
    lemma_before(m, dir, v, n);
    lemma_part_file(x, dir, v, n);
    if file_of(v, n) is Some { lemma_only_put(m.last(), m.last(), dir, parts(n), joined(dir, name), file_of(v, n)->0); }
    lemma_next(m, dir, v, n, x);
}
pub open spec fn put_file(m: Files, dir: Seq<char>, v: VPX, k: int) -> Files { match file_of(v, k) { Some(b) => m.insert(joined(dir, name_of(k)), b), None => m } }
pub open spec fn after_gamedata(m: Seq<Files>, dir: Seq<char>, v: VPX, x: Files) -> Seq<Files> { m.push(put_file(m.last(), dir, v, 8)).push(x) }
pub proof fn lemma_gamedata(m: Seq<Files>, dir: Seq<char>, v: VPX, x: Files)
    requires dir.len() > 0, done(m, dir, v, 8), x == put_file(put_file(m.last(), dir, v, 8), dir, v, 9),
    ensures done(after_gamedata(m, dir, v, x), dir, v, 10), after_gamedata(m, dir, v, x).last() == x,
{ let a = put_file(m.last(), dir, v, 8); lemma_put(m, dir, v, 8, a, name_of(8)); lemma_put(m.push(a), dir, v, 9, x, name_of(9)); }
pub open spec fn after_materials(m: Seq<Files>, dir: Seq<char>, v: VPX, x: Files) -> Seq<Files> {
    let a = put_file(m.last(), dir, v, 10); let b = put_file(a, dir, v, 11);
    m.push(a).push(b).push(x)
}
pub proof fn lemma_materials(m: Seq<Files>, dir: Seq<char>, v: VPX, x: Files)
    requires dir.len() > 0, done(m, dir, v, 10), x == put_file(put_file(put_file(m.last(), dir, v, 10), dir, v, 11), dir, v, 12),
    ensures done(after_materials(m, dir, v, x), dir, v, 13), after_materials(m, dir, v, x).last() == x,
{
    let a = put_file(m.last(), dir, v, 10); let b = put_file(a, dir, v, 11);
    lemma_put(m, dir, v, 10, a, name_of(10)); lemma_put(m.push(a), dir, v, 11, b, name_of(11)); lemma_put(m.push(a).push(b), dir, v, 12, x, name_of(12));
}
/// every part is in the directory at the end
pub proof fn lemma_all(m: Seq<Files>, dir: Seq<char>, v: VPX)
    requires dir.len() > 0, done(m, dir, v, 14),
    ensures vpx_stored(m.last(), dir, v),
{
    reveal(done); reveal(vpx_stored);
    lemma_table_keys(dir);
    assert forall|k: int| 0 <= k < 14 implies #[trigger] part_ok(m.last(), dir, v, k) by {
        lemma_chain(m, dir, 14, k + 1, 14, k);
        assert(part_ok(m[k + 1], dir, v, k));
        if one_file(k) {
            lemma_part_file(m[k + 1], dir, v, k); lemma_part_file(m[14], dir, v, k);
            lemma_same_file(m[k + 1], m[14], dir, parts(k), name_of(k), file_of(v, k));
        } else {
            reveal(part_ok);
            if k == 4 { axiom_items_stay(m[5], m[14], dir, v.gameitems@); }
            if k == 5 { axiom_images_stay(m[6], m[14], dir, v.images@); }
            if k == 6 { lemma_sounds_stay(m[7], m[14], dir, v.sounds@); }
            if k == 7 { lemma_fonts_stay(m[8], m[14], dir, v.fonts@); }
        }
    }
}
pub proof fn lemma_open(m: Files, dir: Seq<char>, v: VPX)
    requires vpx_stored(m, dir, v),
    ensures
        file_is(m, dir, "version.txt"@, Some(vstd::utf8::encode_utf8(dec_text(v.version.0 as int)))),
        file_is(m, dir, "screenshot.png"@, obytes(v.info.screenshot)),
        file_is(m, dir, "info.json"@, Some(info_text(InfoJ { v: info_view(v.info), order: texts(v.custominfotags@) }))),
        file_is(m, dir, "collections.json"@, Some(colls_text(colls(v.collections@)))),
        items_stored(m, dir, v.gameitems@),
        images_stored(m, dir, v.images@),
        sounds_stored(m, dir, v.sounds@),
        fonts_stored(m, dir, v.fonts@),
        file_is(m, dir, "gamedata.json"@, Some(gd_text(v.gamedata.rest))),
        file_is(m, dir, "script.vbs"@, Some(swe_bytes(swe_view(v.gamedata.code)))),
        file_is(m, dir, "materials.json"@, match v.gamedata.materials { Some(x) => Some(mats_text(x@)), None => None }),
        file_is(m, dir, "materials-old.json"@, match v.gamedata.materials { Some(_) => None, None => Some(saves_text(v.gamedata.materials_old@)) }),
        file_is(m, dir, "materials-physics-old.json"@, match v.gamedata.materials { Some(_) => None, None => match v.gamedata.materials_physics_old { Some(x) => Some(physs_text(x@)), None => None } }),
        file_is(m, dir, "renderprobes.json"@, match v.gamedata.render_probes { Some(x) => Some(probes_text(x@)), None => None }),
{
    reveal(vpx_stored); reveal(part_ok);
    assert(part_ok(m, dir, v, 0)); assert(part_ok(m, dir, v, 1)); assert(part_ok(m, dir, v, 2)); assert(part_ok(m, dir, v, 3)); assert(part_ok(m, dir, v, 4)); assert(part_ok(m, dir, v, 5)); assert(part_ok(m, dir, v, 6)); assert(part_ok(m, dir, v, 7)); assert(part_ok(m, dir, v, 8)); assert(part_ok(m, dir, v, 9)); assert(part_ok(m, dir, v, 10)); assert(part_ok(m, dir, v, 11)); assert(part_ok(m, dir, v, 12)); assert(part_ok(m, dir, v, 13));
}
pub proof fn lemma_table_keys(dir: Seq<char>) requires dir.len() > 0
    ensures forall|k: int| one_file(k) ==> norm(#[trigger] name_of(k)) == name_of(k) && norm(joined(dir, name_of(k))) == joined(dir, name_of(k)) && owns(dir, parts(k), joined(dir, name_of(k))),
        norm("version.txt"@) == "version.txt"@, norm(joined(dir, "version.txt"@)) == joined(dir, "version.txt"@), norm("screenshot.png"@) == "screenshot.png"@, norm(joined(dir, "screenshot.png"@)) == joined(dir, "screenshot.png"@),
{
    reveal_strlit("version"); reveal_strlit("version.txt"); assert("version.txt"@.subrange(0, "version"@.len() as int) =~= "version"@); lemma_file_of(dir, "version"@, "version.txt"@);
    reveal_strlit("screenshot"); reveal_strlit("screenshot.png"); assert("screenshot.png"@.subrange(0, "screenshot"@.len() as int) =~= "screenshot"@); lemma_file_of(dir, "screenshot"@, "screenshot.png"@);
    reveal_strlit("info"); reveal_strlit("info.json"); assert("info.json"@.subrange(0, "info"@.len() as int) =~= "info"@); lemma_file_of(dir, "info"@, "info.json"@);
    reveal_strlit("collections"); reveal_strlit("collections.json"); assert("collections.json"@.subrange(0, "collections"@.len() as int) =~= "collections"@); lemma_file_of(dir, "collections"@, "collections.json"@);
    reveal_strlit("gamedata"); reveal_strlit("gamedata.json"); assert("gamedata.json"@.subrange(0, "gamedata"@.len() as int) =~= "gamedata"@); lemma_file_of(dir, "gamedata"@, "gamedata.json"@);
    reveal_strlit("script"); reveal_strlit("script.vbs"); assert("script.vbs"@.subrange(0, "script"@.len() as int) =~= "script"@); lemma_file_of(dir, "script"@, "script.vbs"@);
    reveal_strlit("materials"); reveal_strlit("materials.json"); assert("materials.json"@.subrange(0, "materials"@.len() as int) =~= "materials"@); lemma_file_of(dir, "materials"@, "materials.json"@);
    reveal_strlit("materials-old"); reveal_strlit("materials-old.json"); assert("materials-old.json"@.subrange(0, "materials-old"@.len() as int) =~= "materials-old"@); lemma_file_of(dir, "materials-old"@, "materials-old.json"@);
    reveal_strlit("materials-physics-old"); reveal_strlit("materials-physics-old.json"); assert("materials-physics-old.json"@.subrange(0, "materials-physics-old"@.len() as int) =~= "materials-physics-old"@); lemma_file_of(dir, "materials-physics-old"@, "materials-physics-old.json"@);
    reveal_strlit("renderprobes"); reveal_strlit("renderprobes.json"); assert("renderprobes.json"@.subrange(0, "renderprobes"@.len() as int) =~= "renderprobes"@); lemma_file_of(dir, "renderprobes"@, "renderprobes.json"@);
}
pub open spec fn same_items<T>(a: Option<Vec<T>>, b: Option<Vec<T>>) -> bool { match a { Some(x) => b is Some && x@ == (b->0)@, None => b is None } }
/// the settings are the same; the old forms of materials are made anew where there are new ones, and the counts are those of the parts
pub open spec fn same_gd(a: GameData, b: GameData) -> bool {
    &&& a.rest == b.rest && swe_view(a.code) == swe_view(b.code) && same_items(a.render_probes, b.render_probes) && same_items(a.materials, b.materials)
    &&& (a.materials is None ==> a.materials_old@ == b.materials_old@ && same_items(a.materials_physics_old, b.materials_physics_old) && b.materials_size == a.materials_old@.len() as u32)
    &&& (a.materials is Some ==> b.materials_old@ == saves_of((a.materials->0)@) && b.materials_physics_old is Some && (b.materials_physics_old->0)@ == physs_of((a.materials->0)@) && b.materials_size == (a.materials->0)@.len() as u32)
}
pub open spec fn same_vpx(a: VPX, b: VPX) -> bool {
    &&& a.version == b.version && obytes(a.info.screenshot) == obytes(b.info.screenshot) && info_view(a.info) == info_view(b.info) && texts(a.custominfotags@) == texts(b.custominfotags@)
    &&& colls(a.collections@) == colls(b.collections@) && a.gameitems@ == b.gameitems@ && a.images@ == b.images@ && same_sounds(a.sounds@, b.sounds@) && same_fonts(a.fonts@, b.fonts@)
    &&& same_gd(a.gamedata, b.gamedata)
    &&& b.gamedata.collections_size == a.collections@.len() as u32 && b.gamedata.gameitems_size == a.gameitems@.len() as u32 && b.gamedata.images_size == a.images@.len() as u32
    &&& b.gamedata.sounds_size == a.sounds@.len() as u32 && b.gamedata.fonts_size == a.fonts@.len() as u32
}
/// the pair of real functions: a table, written to an empty directory and read from it
pub fn table_roundtrip<P: VAsPath>(vpx: &VPX, dir: &P, options: &ExpandOptions, fs: &mut Fs) -> (r: Result<Option<VPX>, Error>)
    requires dir.at().len() > 0, whole(*vpx), clear(old(fs)@, dir.at()), old(fs).ok(),
    ensures r is Ok ==> r->Ok_0 is Some && same_vpx(*vpx, r->Ok_0->0),
{
    write_fs(vpx, dir, options, fs)?;
    match read_fs(dir, fs, Ghost(*vpx)) { Ok(x) => Ok(Some(x)), Err(_) => Ok(None) }
}
