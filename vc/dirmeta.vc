@@module dirmeta src/vpx/expanded/metadata.rs
@@noinline
@@broadcast vpin_base, vpin_str, vpin_seq, vpin_cfb, vpin_vfs, axiom_value, axiom_plain_info, axiom_plain_colls
@@fn write_game_data
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
@@subst to_writer_pretty\(&mut game_data_file=>to_writer_pretty(&mut *game_data_file
@@subst gamedata\.code\.clone\(\)=>v_clone_swe(&gamedata.code)
@@subst script_bytes\.as_ref\(\)=>script_bytes.as_slice()
    requires expanded_dir.at().len() > 0, swe_bytes_ok(swe_view(gamedata.code)),
    ensures
        final(fs).ok() == old(fs).ok(), old(fs).ok() ==> r is Ok,
        r is Ok ==> final(fs)@ == old(fs)@.insert(joined(expanded_dir.at(), "gamedata.json"@), gd_text(gamedata.rest)).insert(joined(expanded_dir.at(), "script.vbs"@), swe_bytes(swe_view(gamedata.code))),
@@start
    proof { lemma_meta_keys(expanded_dir.at()); }
@@fn read_game_data
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
@@ret out
    requires expanded_dir.at().len() > 0,
    ensures
        final(fs)@ == old(fs)@, final(fs).ok() == old(fs).ok(), out is Ok ==> out->Ok_0.materials is None,
        old(fs).ok() ==> forall|g: GameDataRest, c: (bool, Seq<char>)| gd_kept(g) && swe_canon(c) && file_is(old(fs)@, expanded_dir.at(), "gamedata.json"@, Some(#[trigger] gd_text(g))) && file_is(old(fs)@, expanded_dir.at(), "script.vbs"@, Some(#[trigger] swe_bytes(c))) ==> out is Ok && out->Ok_0.rest == g && swe_view(out->Ok_0.code) == c,
@@start
    proof {
        lemma_meta_keys(expanded_dir.at());
        assert forall|c: (bool, Seq<char>)| swe_canon(c) implies swe_of(#[trigger] swe_bytes(c)) == c by { lemma_swe(c); }
    }
@@fn write_info
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
@@subst to_writer_pretty\(&mut json_file=>to_writer_pretty(&mut *json_file
    requires expanded_dir.at().len() > 0,
    ensures
        final(fs).ok() == old(fs).ok(), old(fs).ok() ==> r is Ok,
        r is Ok ==> final(fs)@ == old(fs)@.insert(joined(expanded_dir.at(), "info.json"@), info_text(InfoJ { v: info_view(*info), order: texts(custominfotags@) })),
@@start
    proof { lemma_meta_keys(expanded_dir.at()); }
@@fn read_info
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
@@ret out
    requires expanded_dir.at().len() > 0,
    ensures
        final(fs)@ == old(fs)@, final(fs).ok() == old(fs).ok(),
        old(fs).ok() ==> forall|j: InfoJ| file_is(old(fs)@, expanded_dir.at(), "info.json"@, Some(#[trigger] info_text(j))) ==> out is Ok && info_view(out->Ok_0.0) == j.v && texts(out->Ok_0.1@) == j.order && out->Ok_0.0.screenshot == screenshot,
@@start
    proof { lemma_meta_keys(expanded_dir.at()); }
@@fn write_collections
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
@@subst to_writer_pretty\(&mut collections_json_file=>to_writer_pretty(&mut *collections_json_file
    requires expanded_dir.at().len() > 0,
    ensures
        final(fs).ok() == old(fs).ok(), old(fs).ok() ==> r is Ok,
        r is Ok ==> final(fs)@ == old(fs)@.insert(joined(expanded_dir.at(), "collections.json"@), colls_text(colls(collections@))),
@@start
    proof { lemma_meta_keys(expanded_dir.at()); }
@@fn read_collections
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
@@ret out
@@subst let value = read_json=>let value: Value = read_json
    requires expanded_dir.at().len() > 0,
    ensures
        final(fs)@ == old(fs)@, final(fs).ok() == old(fs).ok(),
        old(fs).ok() ==> forall|j: Seq<CollV>| file_is(old(fs)@, expanded_dir.at(), "collections.json"@, Some(#[trigger] colls_text(j))) ==> out is Ok && colls(out->Ok_0@) == j,
@@start
    proof { lemma_meta_keys(expanded_dir.at()); }
@@fn write_renderprobes
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
@@subst to_writer_pretty\(&mut renderprobes_file=>to_writer_pretty(&mut *renderprobes_file
    requires expanded_dir.at().len() > 0,
    ensures
        final(fs).ok() == old(fs).ok(), old(fs).ok() ==> r is Ok,
        r is Ok && render_probes is Some ==> final(fs)@ == old(fs)@.insert(joined(expanded_dir.at(), "renderprobes.json"@), probes_text(render_probes->0@)), r is Ok && render_probes is None ==> final(fs)@ == old(fs)@,
@@start
    proof { lemma_meta_keys(expanded_dir.at()); }
@@loop 0
    iter __it
    invariant
        render_probes is Some, renderprobes@ == render_probes->0@,
        __it.seq().len() == renderprobes@.len(), forall|k: int| 0 <= k < renderprobes@.len() ==> *(#[trigger] __it.seq()[k]) == renderprobes@[k],
        __out1@.len() == __it.index(), forall|k: int| 0 <= k < __it.index() ==> #[trigger] __out1@[k] == probe_form(renderprobes@[k]),
@@after_loop 0
    proof { assert(__out1@ =~= probe_forms(renderprobes@)); }
@@fn read_renderprobes
@@sigsubst P : AsRef < Path >=>P : VAsPath
@@sigsubst & dyn FileSystem=>& mut Fs
@@sigsubst WriteError=>Error
@@ret out
    requires expanded_dir.at().len() > 0,
    ensures
        final(fs)@ == old(fs)@, final(fs).ok() == old(fs).ok(),
        file_is(old(fs)@, expanded_dir.at(), "renderprobes.json"@, None) ==> out is Ok && out->Ok_0 is None,
        old(fs).ok() ==> forall|m: Seq<RenderProbeWithGarbage>| probes_kept(m) && file_is(old(fs)@, expanded_dir.at(), "renderprobes.json"@, Some(#[trigger] probes_text(m))) ==> out is Ok && out->Ok_0 is Some && (out->Ok_0->0)@ == m,
@@start
    let ghost __b = old(fs)@[joined(expanded_dir.at(), "renderprobes.json"@)];
    proof { lemma_meta_keys(expanded_dir.at()); lemma_probes_there(__b); }
@@before_loop 0
    let ghost __q = value@;
    proof { assert(fs@ =~= old(fs)@); assert(json_of::<Seq<RenderProbeJson>>(__b) == Some(__q)); }
@@loop 0
    iter __it
    invariant
        __it.seq().len() == __q.len(), forall|k: int| 0 <= k < __q.len() ==> *(#[trigger] __it.seq()[k]) == __q[k], __out2@.len() == __it.index(), forall|k: int| 0 <= k < __it.index() ==> from_probe(__q[k], #[trigger] __out2@[k]),
@@after_loop 0
    proof { lemma_probes_read(__b, __q, __out2@); }
@@extra
/// assumed: a render probe comes back from its JSON form while that holds all of it (decided by the job json:parts)
#[verifier::external_body] pub struct RenderProbeWithGarbage { m: u8 }
#[verifier::external_body] pub struct RenderProbeJson { m: u8 }
pub uninterp spec fn probe_form(m: RenderProbeWithGarbage) -> RenderProbeJson;
pub uninterp spec fn probe_plain(m: RenderProbeWithGarbage) -> bool;
pub open spec fn from_probe(j: RenderProbeJson, r: RenderProbeWithGarbage) -> bool { forall|m: RenderProbeWithGarbage| probe_plain(m) && j == #[trigger] probe_form(m) ==> r == m }
impl RenderProbeJson {
    #[verifier::external_body] pub fn from_renderprobe(m: &RenderProbeWithGarbage) -> (r: RenderProbeJson) ensures r == probe_form(*m) { unimplemented!() }
    #[verifier::external_body] pub fn to_renderprobe(&self) -> (r: RenderProbeWithGarbage) ensures from_probe(*self, r) { unimplemented!() }
}
impl VJson for Vec<RenderProbeJson> { type J = Seq<RenderProbeJson>; open spec fn json(&self) -> Seq<RenderProbeJson> { self@ } }
pub open spec fn probe_forms(m: Seq<RenderProbeWithGarbage>) -> Seq<RenderProbeJson> { m.map_values(|y: RenderProbeWithGarbage| probe_form(y)) }
pub open spec fn probes_kept(m: Seq<RenderProbeWithGarbage>) -> bool { json_plain(probe_forms(m)) && forall|i: int| 0 <= i < m.len() ==> probe_plain(#[trigger] m[i]) }
pub open spec fn probes_text(m: Seq<RenderProbeWithGarbage>) -> Seq<u8> { json_text(probe_forms(m)) }
/// what the file holds is what comes back
pub proof fn lemma_probes_read(b: Seq<u8>, j: Seq<RenderProbeJson>, r: Seq<RenderProbeWithGarbage>)
    requires json_of::<Seq<RenderProbeJson>>(b) == Some(j), r.len() == j.len(), forall|i: int| 0 <= i < r.len() ==> from_probe(j[i], #[trigger] r[i]),
    ensures forall|m: Seq<RenderProbeWithGarbage>| probes_kept(m) && b == #[trigger] probes_text(m) ==> r == m,
{
    broadcast use axiom_json;
    assert forall|m: Seq<RenderProbeWithGarbage>| probes_kept(m) && b == #[trigger] probes_text(m) implies r == m by {
        assert(j == probe_forms(m));
        assert forall|i: int| 0 <= i < r.len() implies r[i] == m[i] by { assert(j[i] == probe_form(m[i])); assert(from_probe(j[i], r[i])); assert(probe_plain(m[i])); }
        assert(r =~= m);
    }
}
pub proof fn lemma_probes_there(b: Seq<u8>)
    ensures forall|m: Seq<RenderProbeWithGarbage>| probes_kept(m) && b == #[trigger] probes_text(m) ==> json_of::<Seq<RenderProbeJson>>(b) is Some,
{ broadcast use axiom_json; }
pub proof fn lemma_meta_keys(dir: Seq<char>) requires dir.len() > 0
    ensures
        norm("gamedata.json"@) == "gamedata.json"@, norm(joined(dir, "gamedata.json"@)) == joined(dir, "gamedata.json"@), owns(dir, "gamedata"@, joined(dir, "gamedata.json"@)),
        norm("script.vbs"@) == "script.vbs"@, norm(joined(dir, "script.vbs"@)) == joined(dir, "script.vbs"@), owns(dir, "script"@, joined(dir, "script.vbs"@)),
        norm("info.json"@) == "info.json"@, norm(joined(dir, "info.json"@)) == joined(dir, "info.json"@), owns(dir, "info"@, joined(dir, "info.json"@)),
        norm("collections.json"@) == "collections.json"@, norm(joined(dir, "collections.json"@)) == joined(dir, "collections.json"@), owns(dir, "collections"@, joined(dir, "collections.json"@)),
        norm("renderprobes.json"@) == "renderprobes.json"@, norm(joined(dir, "renderprobes.json"@)) == joined(dir, "renderprobes.json"@), owns(dir, "renderprobes"@, joined(dir, "renderprobes.json"@)),
{
    reveal_strlit("gamedata"); reveal_strlit("gamedata.json"); assert("gamedata.json"@.subrange(0, "gamedata"@.len() as int) =~= "gamedata"@); lemma_file_of(dir, "gamedata"@, "gamedata.json"@);
    reveal_strlit("script"); reveal_strlit("script.vbs"); assert("script.vbs"@.subrange(0, "script"@.len() as int) =~= "script"@); lemma_file_of(dir, "script"@, "script.vbs"@);
    reveal_strlit("info"); reveal_strlit("info.json"); assert("info.json"@.subrange(0, "info"@.len() as int) =~= "info"@); lemma_file_of(dir, "info"@, "info.json"@);
    reveal_strlit("collections"); reveal_strlit("collections.json"); assert("collections.json"@.subrange(0, "collections"@.len() as int) =~= "collections"@); lemma_file_of(dir, "collections"@, "collections.json"@);
    reveal_strlit("renderprobes"); reveal_strlit("renderprobes.json"); assert("renderprobes.json"@.subrange(0, "renderprobes"@.len() as int) =~= "renderprobes"@); lemma_file_of(dir, "renderprobes"@, "renderprobes.json"@);
}
pub open spec fn info_text(j: InfoJ) -> Seq<u8> { json_text(value_form(j)) }
pub open spec fn colls_text(j: Seq<CollV>) -> Seq<u8> { json_text(value_form(j)) }
/// assumed: derived Clone returns an equal value
#[verifier::external_body] pub fn v_clone_swe(s: &StringWithEncoding) -> (r: StringWithEncoding) ensures r == *s { unimplemented!() }
impl VInto<Vec<u8>> for StringWithEncoding {
    open spec fn into_ok(self) -> bool { swe_bytes_ok(swe_view(self)) }
    open spec fn into_is(self, r: Vec<u8>) -> bool { r@ == swe_bytes(swe_view(self)) }
    fn v_into(self) -> (r: Vec<u8>) { vec_from_swe(self) }
}
impl VInto<StringWithEncoding> for Vec<u8> {
    open spec fn into_ok(self) -> bool { true }
    open spec fn into_is(self, r: StringWithEncoding) -> bool { swe_view(r) == swe_of(self@) }
    fn v_into(self) -> (r: StringWithEncoding) { StringWithEncoding::from_vec(self) }
}
