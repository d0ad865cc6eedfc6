@@module container src/vpx/mod.rs
@@broadcast vpin_base, vpin_cfb, lemma_and1, lemma_put_none
@@mangle gameitem::read=>gameitem_read
@@mangle gameitem::write=>gameitem_write
@@mangle sound::read=>sound_read
@@mangle sound::write=>sound_write
@@mangle font::read=>font_read
@@mangle font::write=>font_write
@@mangle collection::read=>collection_read
@@mangle collection::write=>collection_write
@@mangle custominfotags::read_custominfotags=>tags_read
@@mangle custominfotags::write_custominfotags=>tags_write
@@item struct VPX
@@item enum AddImageResult
@@item struct VpxFile
@@itemattr struct VpxFile=>#[verifier::reject_recursive_types(F)]
@@fn create_game_storage
    ensures r is Ok ==> final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(), old(comp).ok() ==> r is Ok,
@@fn read_mac
    ensures final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(), r is Ok ==> old(comp)@.contains_key(k_mac()) && r->Ok_0@ == old(comp)@[k_mac()], old(comp).ok() && old(comp)@.contains_key(k_mac()) ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@fn write_mac
    ensures r is Ok ==> final(comp)@ == old(comp)@.insert(k_mac(), mac@), final(comp).ok() == old(comp).ok(), old(comp).ok() ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@fn generate_mac
@@external
    ensures final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(), r is Ok ==> r->Ok_0@ == mac_of(old(comp)@), old(comp).ok() ==> r is Ok,
@@fn read_gamedata
    ensures final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(), r is Ok ==> old(comp)@.contains_key(k_gamedata()) && r->Ok_0 == gd_of(old(comp)@[k_gamedata()], *version), old(comp).ok() && old(comp)@.contains_key(k_gamedata()) ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@fn write_game_data
    ensures r is Ok ==> final(comp)@ == old(comp)@.insert(k_gamedata(), gd_enc(*gamedata, *version)), final(comp).ok() == old(comp).ok(), old(comp).ok() ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@fn read_custominfotags
    ensures final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(), r is Ok ==> r->Ok_0 == tags_in(old(comp)@), old(comp).ok() ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@fn write_custominfotags
    ensures r is Ok ==> final(comp)@ == old(comp)@.insert(k_tags(), tags_enc(*tags)), final(comp).ok() == old(comp).ok(), old(comp).ok() ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@fn read_gameitems
    ensures
        final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(),
        r is Ok ==> r->Ok_0@ == nths(old(comp)@, k_item(), gamedata.gameitems_size as int).map_values(|d: Seq<u8>| gi_of(d)),
        old(comp).ok() && all_there(old(comp)@, k_item(), gamedata.gameitems_size as int) ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@loop 0
    invariant
        gamestg@ == "GameStg"@, comp@ == old(comp)@, comp.ok() == old(comp).ok(), __out1@.len() == index, index <= gamedata.gameitems_size,
        forall|i: int| 0 <= i < index ==> #[trigger] __out1@[i] == gi_of(old(comp)@[nth(k_item(), i)]),
@@loop_start 0
    broadcast use {vpin_base, vpin_cfb};
    proof { lemma_keys(); assert(all_there(comp@, k_item(), gamedata.gameitems_size as int) ==> comp@.contains_key(nth(k_item(), index as int))); }
@@post
    if __ret is Ok { assert(__ret->Ok_0@ =~= nths(old(comp)@, k_item(), gamedata.gameitems_size as int).map_values(|d: Seq<u8>| gi_of(d))); }
@@fn read_sounds
    ensures
        final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(),
        r is Ok ==> r->Ok_0@ == nths(old(comp)@, k_sound(), gamedata.sounds_size as int).map_values(|d: Seq<u8>| snd_of(d, *file_version)),
        old(comp).ok() && all_there(old(comp)@, k_sound(), gamedata.sounds_size as int) ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@loop 0
    invariant
         comp@ == old(comp)@, comp.ok() == old(comp).ok(), __out1@.len() == index, index <= gamedata.sounds_size,
        forall|i: int| 0 <= i < index ==> #[trigger] __out1@[i] == snd_of(old(comp)@[nth(k_sound(), i)], *file_version),
@@loop_start 0
    broadcast use {vpin_base, vpin_cfb};
    proof { lemma_keys(); assert(all_there(comp@, k_sound(), gamedata.sounds_size as int) ==> comp@.contains_key(nth(k_sound(), index as int))); }
@@post
    if __ret is Ok { assert(__ret->Ok_0@ =~= nths(old(comp)@, k_sound(), gamedata.sounds_size as int).map_values(|d: Seq<u8>| snd_of(d, *file_version))); }
@@fn read_collections
    ensures
        final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(),
        r is Ok ==> r->Ok_0@ == nths(old(comp)@, k_coll(), gamedata.collections_size as int).map_values(|d: Seq<u8>| coll_of(d)),
        old(comp).ok() && all_there(old(comp)@, k_coll(), gamedata.collections_size as int) ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@loop 0
    invariant
         comp@ == old(comp)@, comp.ok() == old(comp).ok(), __out1@.len() == index, index <= gamedata.collections_size,
        forall|i: int| 0 <= i < index ==> #[trigger] __out1@[i] == coll_of(old(comp)@[nth(k_coll(), i)]),
@@loop_start 0
    broadcast use {vpin_base, vpin_cfb};
    proof { lemma_keys(); assert(all_there(comp@, k_coll(), gamedata.collections_size as int) ==> comp@.contains_key(nth(k_coll(), index as int))); }
@@post
    if __ret is Ok { assert(__ret->Ok_0@ =~= nths(old(comp)@, k_coll(), gamedata.collections_size as int).map_values(|d: Seq<u8>| coll_of(d))); }
@@fn read_images
    ensures
        final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(),
        r is Ok ==> r->Ok_0@ == nths(old(comp)@, k_image(), gamedata.images_size as int).map_values(|d: Seq<u8>| img_of(d)),
        old(comp).ok() && all_there(old(comp)@, k_image(), gamedata.images_size as int) ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@loop 0
    invariant
         comp@ == old(comp)@, comp.ok() == old(comp).ok(), __out1@.len() == index, index <= gamedata.images_size,
        forall|i: int| 0 <= i < index ==> #[trigger] __out1@[i] == img_of(old(comp)@[nth(k_image(), i)]),
@@loop_start 0
    broadcast use {vpin_base, vpin_cfb};
    proof { lemma_keys(); assert(all_there(comp@, k_image(), gamedata.images_size as int) ==> comp@.contains_key(nth(k_image(), index as int))); }
@@post
    if __ret is Ok { assert(__ret->Ok_0@ =~= nths(old(comp)@, k_image(), gamedata.images_size as int).map_values(|d: Seq<u8>| img_of(d))); }
@@fn read_fonts
    ensures
        final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(),
        r is Ok ==> r->Ok_0@ == nths(old(comp)@, k_font(), gamedata.fonts_size as int).map_values(|d: Seq<u8>| font_of(d)),
        old(comp).ok() && all_there(old(comp)@, k_font(), gamedata.fonts_size as int) ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@loop 0
    invariant
         comp@ == old(comp)@, comp.ok() == old(comp).ok(), __out1@.len() == index, index <= gamedata.fonts_size,
        forall|i: int| 0 <= i < index ==> #[trigger] __out1@[i] == font_of(old(comp)@[nth(k_font(), i)]),
@@loop_start 0
    broadcast use {vpin_base, vpin_cfb};
    proof { lemma_keys(); assert(all_there(comp@, k_font(), gamedata.fonts_size as int) ==> comp@.contains_key(nth(k_font(), index as int))); }
@@post
    if __ret is Ok { assert(__ret->Ok_0@ =~= nths(old(comp)@, k_font(), gamedata.fonts_size as int).map_values(|d: Seq<u8>| font_of(d))); }
@@fn read_sound
    ensures final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(), r is Ok ==> r->Ok_0 is Ok && (r->Ok_0)->Ok_0 == snd_of(old(comp)@[nth(k_sound(), index as int)], *file_version), old(comp).ok() && old(comp)@.contains_key(nth(k_sound(), index as int)) ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@fn read_image
    ensures final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(), r is Ok ==> r->Ok_0 == img_of(old(comp)@[nth(k_image(), index as int)]), old(comp).ok() && old(comp)@.contains_key(nth(k_image(), index as int)) ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@fn write_gameitem
    ensures r is Ok ==> final(comp)@ == old(comp)@.insert(norm(path@), gi_enc(*gameitem)), final(comp).ok() == old(comp).ok(), old(comp).ok() ==> r is Ok,
@@fn write_image
    ensures r is Ok ==> final(comp)@ == old(comp)@.insert(nth(k_image(), index as int), img_enc(*image)), final(comp).ok() == old(comp).ok(), old(comp).ok() && (overwrite || !old(comp)@.contains_key(nth(k_image(), index as int))) ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@fn write_game_items
    ensures r is Ok ==> final(comp)@ == put_all(old(comp)@, k_item(), gi_encs(gameitems@)), final(comp).ok() == old(comp).ok(), old(comp).ok() ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@loop 0
    invariant
        game_storage_path@ == "GameStg"@, comp@ == put_all(old(comp)@, k_item(), gi_encs(gameitems@).take(index as int)), comp.ok() == old(comp).ok(),
@@loop_start 0
    broadcast use {vpin_base, vpin_cfb};
    proof { lemma_keys();  }
@@loop_end 0
    assert(gi_encs(gameitems@).take(index + 1).drop_last() =~= gi_encs(gameitems@).take(index as int));
@@post
    assert(gi_encs(gameitems@).take(gameitems@.len() as int) =~= gi_encs(gameitems@));
@@fn write_sounds
    ensures r is Ok ==> final(comp)@ == put_all(old(comp)@, k_sound(), snd_encs(sounds@, *file_version)), final(comp).ok() == old(comp).ok(), old(comp).ok() ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@loop 0
    invariant
         comp@ == put_all(old(comp)@, k_sound(), snd_encs(sounds@, *file_version).take(index as int)), comp.ok() == old(comp).ok(),
@@loop_start 0
    broadcast use {vpin_base, vpin_cfb};
    proof { lemma_keys();  }
@@loop_end 0
    assert(snd_encs(sounds@, *file_version).take(index + 1).drop_last() =~= snd_encs(sounds@, *file_version).take(index as int));
@@post
    assert(snd_encs(sounds@, *file_version).take(sounds@.len() as int) =~= snd_encs(sounds@, *file_version));
@@fn write_collections
    ensures r is Ok ==> final(comp)@ == put_all(old(comp)@, k_coll(), coll_encs(collections@)), final(comp).ok() == old(comp).ok(), old(comp).ok() ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@loop 0
    invariant
         comp@ == put_all(old(comp)@, k_coll(), coll_encs(collections@).take(index as int)), comp.ok() == old(comp).ok(),
@@loop_start 0
    broadcast use {vpin_base, vpin_cfb};
    proof { lemma_keys();  }
@@loop_end 0
    assert(coll_encs(collections@).take(index + 1).drop_last() =~= coll_encs(collections@).take(index as int));
@@post
    assert(coll_encs(collections@).take(collections@.len() as int) =~= coll_encs(collections@));
@@fn write_fonts
    ensures r is Ok ==> final(comp)@ == put_all(old(comp)@, k_font(), font_encs(fonts@)), final(comp).ok() == old(comp).ok(), old(comp).ok() ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@loop 0
    invariant
         comp@ == put_all(old(comp)@, k_font(), font_encs(fonts@).take(index as int)), comp.ok() == old(comp).ok(),
@@loop_start 0
    broadcast use {vpin_base, vpin_cfb};
    proof { lemma_keys();  }
@@loop_end 0
    assert(font_encs(fonts@).take(index + 1).drop_last() =~= font_encs(fonts@).take(index as int));
@@post
    assert(font_encs(fonts@).take(fonts@.len() as int) =~= font_encs(fonts@));
@@fn write_images
    ensures r is Ok ==> final(comp)@ == put_all(old(comp)@, k_image(), img_encs(images@)), final(comp).ok() == old(comp).ok(), old(comp).ok() && none_there(old(comp)@, k_image()) ==> r is Ok,
@@start
    proof { lemma_keys(); }
@@loop 0
    invariant
         comp@ == put_all(old(comp)@, k_image(), img_encs(images@).take(index as int)), comp.ok() == old(comp).ok(),
@@loop_start 0
    broadcast use {vpin_base, vpin_cfb};
    proof { lemma_keys(); lemma_put_all(old(comp)@, k_image(), img_encs(images@).take(index as int)); lemma_kinds(); assert(!in_run(k_image(), index as int, nth(k_image(), index as int))) by { reveal(in_run); } assert(none_there(old(comp)@, k_image()) ==> !comp@.contains_key(nth(k_image(), index as int))); }
@@loop_end 0
    assert(img_encs(images@).take(index + 1).drop_last() =~= img_encs(images@).take(index as int));
@@post
    assert(img_encs(images@).take(images@.len() as int) =~= img_encs(images@));
@@fn write_vpx
    requires plain_names(vpx.info),
    ensures
        r is Ok ==> final(comp)@ == written(old(comp)@, *vpx),
        final(comp).ok() == old(comp).ok(),
        old(comp).ok() && none_there(old(comp)@, k_image()) ==> r is Ok,
@@before_loop 0
    let ghost __m = comp@;
    let ghost __k = comp.ok();
    proof { lemma_before_images(old(comp)@, *vpx); }
@@loop 0
    invariant comp@ == __m, comp.ok() == __k,
@@fn read_vpx
    ensures
        final(comp)@ == old(comp)@, final(comp).ok() == old(comp).ok(),
        r is Ok ==> holds(old(comp)@, r->Ok_0),
        old(comp).ok() && complete(old(comp)@) ==> r is Ok,
@@fn write_minimal_vpx
    ensures r is Ok ==> final(comp)@ == with_mac(old(comp)@.insert(k_version(), b32(1072)).insert(k_gamedata(), gd_enc(gd_default(), Version(1072)))), final(comp).ok() == old(comp).ok(), old(comp).ok() ==> r is Ok,
@@fn VpxFile::read_version
    ensures kept(*old(self), *final(self)), r is Ok ==> version_in(old(self).compound_file@, r->Ok_0), old(self).compound_file.ok() && has4(old(self).compound_file@, k_version()) ==> r is Ok,
@@fn VpxFile::read_gamedata
    ensures kept(*old(self), *final(self)), r is Ok ==> gamedata_in(old(self).compound_file@, r->Ok_0), old(self).compound_file.ok() && has4(old(self).compound_file@, k_version()) && old(self).compound_file@.contains_key(k_gamedata()) ==> r is Ok,
@@fn VpxFile::write_gamedata
    ensures
        r is Ok ==> final(self).compound_file@ == regd(old(self).compound_file@, *gamedata),
        final(self).compound_file.ok() == old(self).compound_file.ok(), old(self).compound_file.ok() && has4(old(self).compound_file@, k_version()) ==> r is Ok,
@@fn VpxFile::is_locked
    ensures kept(*old(self), *final(self)), r is Ok ==> exists|g: GameData| #[trigger] gamedata_in(old(self).compound_file@, g) && r->Ok_0 == is_odd(g.locked), readable(*old(self)) ==> r is Ok,
@@fn VpxFile::lock
    ensures
        r is Ok && !r->Ok_0 ==> kept(*old(self), *final(self)) && exists|g: GameData| #[trigger] gamedata_in(old(self).compound_file@, g) && is_odd(g.locked),
        r is Ok && r->Ok_0 ==> exists|g: GameData| #[trigger] gamedata_in(old(self).compound_file@, g) && !is_odd(g.locked) && final(self).compound_file@ == regd(old(self).compound_file@, toggled(g)),
        readable(*old(self)) ==> r is Ok,
@@fn VpxFile::unlock
    ensures
        r is Ok && !r->Ok_0 ==> kept(*old(self), *final(self)) && exists|g: GameData| #[trigger] gamedata_in(old(self).compound_file@, g) && !is_odd(g.locked),
        r is Ok && r->Ok_0 ==> exists|g: GameData| #[trigger] gamedata_in(old(self).compound_file@, g) && is_odd(g.locked) && final(self).compound_file@ == regd(old(self).compound_file@, toggled(g)),
        readable(*old(self)) ==> r is Ok,
@@fn VpxFile::read_gameitems
    ensures kept(*old(self), *final(self)), r is Ok ==> exists|g: GameData| #[trigger] gamedata_in(old(self).compound_file@, g) && r->Ok_0@ == items_in(old(self).compound_file@, g),
@@fn VpxFile::read_images
    ensures kept(*old(self), *final(self)), r is Ok ==> exists|g: GameData| #[trigger] gamedata_in(old(self).compound_file@, g) && r->Ok_0@ == images_in(old(self).compound_file@, g),
@@fn VpxFile::read_fonts
    ensures kept(*old(self), *final(self)), r is Ok ==> exists|g: GameData| #[trigger] gamedata_in(old(self).compound_file@, g) && r->Ok_0@ == fonts_in(old(self).compound_file@, g),
@@fn VpxFile::read_collections
    ensures kept(*old(self), *final(self)), r is Ok ==> exists|g: GameData| #[trigger] gamedata_in(old(self).compound_file@, g) && r->Ok_0@ == colls_in(old(self).compound_file@, g),
@@fn VpxFile::read_sounds
    ensures kept(*old(self), *final(self)), r is Ok ==> exists|g: GameData, v: Version| #[trigger] gamedata_in(old(self).compound_file@, g) && #[trigger] version_in(old(self).compound_file@, v) && r->Ok_0@ == sounds_in(old(self).compound_file@, g, v),
@@fn VpxFile::read_custominfotags
    ensures kept(*old(self), *final(self)), r is Ok ==> r->Ok_0 == tags_in(old(self).compound_file@), old(self).compound_file.ok() ==> r is Ok,
@@fn VpxFile::read_tableinfo
    ensures kept(*old(self), *final(self)), r is Ok ==> info_in(old(self).compound_file@, r->Ok_0),
@@fn VPX::add_game_item
    requires old(self).gameitems@.len() < u32::MAX,
    ensures
        final(self).gameitems@ == old(self).gameitems@.push(item), final(self).gamedata == (GameData { gameitems_size: (old(self).gameitems@.len() + 1) as u32, ..old(self).gamedata }),
        same_but_items(*old(self), *final(self)), *r == *final(self),
@@fn VPX::set_script
    ensures
        final(self).gamedata.code.string@ == script@, final(self).gamedata == (GameData { code: final(self).gamedata.code, ..old(self).gamedata }),
        final(self).gameitems == old(self).gameitems, same_but_items(*old(self), *final(self)), *r == *final(self),
@@fn VPX::add_or_replace_image
    requires old(self).gamedata.images_size < u32::MAX,
    ensures
        r is Replaced ==> exists|i: int| first_named(old(self).images@, image.name@, i) && *(r->Replaced_0) == #[trigger] old(self).images@[i] && final(self).images@ == old(self).images@.update(i, image) && final(self).gamedata == old(self).gamedata,
        r is Added ==> (forall|i: int| 0 <= i < old(self).images@.len() ==> !same_name(#[trigger] old(self).images@[i].name@, image.name@)) && final(self).images@ == old(self).images@.push(image)
            && final(self).gamedata == (GameData { images_size: (old(self).gamedata.images_size + 1) as u32, ..old(self).gamedata }),
        same_but_images(*old(self), *final(self)),
@@loop 0
    invariant_except_break
        __pos1 is None, forall|i: int| 0 <= i < __k2 ==> !same_name(#[trigger] self.images@[i].name@, image.name@),
    invariant
        *self == *old(self),
    ensures
        __pos1 is None ==> forall|i: int| 0 <= i < self.images@.len() ==> !same_name(#[trigger] self.images@[i].name@, image.name@),
        __pos1 is Some ==> first_named(self.images@, image.name@, __pos1->0 as int),
@@extra
pub assume_specification[ str::eq_ignore_ascii_case ](a: &str, b: &str) -> (r: bool) ensures r == same_name(a@, b@);
/// assumed: std compares names without ASCII case
pub uninterp spec fn same_name(a: Seq<char>, b: Seq<char>) -> bool;
pub open spec fn first_named(s: Seq<ImageData>, n: Seq<char>, i: int) -> bool { 0 <= i < s.len() && same_name(s[i].name@, n) && forall|j: int| 0 <= j < i ==> !same_name(#[trigger] s[j].name@, n) }
pub open spec fn same_but_items(a: VPX, b: VPX) -> bool { a.custominfotags == b.custominfotags && a.info == b.info && a.version == b.version && a.images == b.images && a.sounds == b.sounds && a.fonts == b.fonts && a.collections == b.collections }
pub open spec fn same_but_images(a: VPX, b: VPX) -> bool { a.custominfotags == b.custominfotags && a.info == b.info && a.version == b.version && a.gameitems == b.gameitems && a.sounds == b.sounds && a.fonts == b.fonts && a.collections == b.collections }
// the parts, each with the bytes its own module writes and reads (see the jobs of P03, P05 and P06)
#[verifier::external_body] pub struct GameItemEnum { r: u8 }
#[verifier::external_body] pub struct CustomInfoTags { r: u8 }
#[verifier::external_body] pub struct SoundData { r: u8 }
#[verifier::external_body] pub struct FontData { r: u8 }
#[verifier::external_body] pub struct Collection { r: u8 }
pub uninterp spec fn mac_of(m: Map<Seq<char>, Seq<u8>>) -> Seq<u8>;
pub uninterp spec fn gd_of(d: Seq<u8>, v: Version) -> GameData;
pub uninterp spec fn gd_enc(g: GameData, v: Version) -> Seq<u8>;
pub uninterp spec fn gd_default() -> GameData;
impl GameData { #[verifier::external_body] pub fn default() -> (r: GameData) ensures r == gd_default() { unimplemented!() } }
#[verifier::external_body] pub fn read_all_gamedata_records(d: &[u8], v: &Version) -> (r: GameData) ensures r == gd_of(d@, *v) { unimplemented!() }
#[verifier::external_body] pub fn write_all_gamedata_records(g: &GameData, v: &Version) -> (r: Vec<u8>) ensures r@ == gd_enc(*g, *v) { unimplemented!() }
pub uninterp spec fn gi_of(d: Seq<u8>) -> GameItemEnum;
pub uninterp spec fn gi_enc(g: GameItemEnum) -> Seq<u8>;
#[verifier::external_body] pub fn gameitem_read(d: &[u8]) -> (r: GameItemEnum) ensures r == gi_of(d@) { unimplemented!() }
#[verifier::external_body] pub fn gameitem_write(g: &GameItemEnum) -> (r: Vec<u8>) ensures r@ == gi_enc(*g) { unimplemented!() }
#[verifier::external_body] pub fn validate_part_group_order(g: &Vec<GameItemEnum>) -> (r: Vec<String>) { unimplemented!() }
pub uninterp spec fn snd_of(d: Seq<u8>, v: Version) -> SoundData;
pub uninterp spec fn snd_enc(s: SoundData, v: Version) -> Seq<u8>;
#[verifier::external_body] pub fn sound_read(v: &Version, b: &mut BiffReader<'_>) -> (r: SoundData) ensures r == snd_of(old(b).data@.skip(old(b).pos as int), *v) { unimplemented!() }
#[verifier::external_body] pub fn sound_write(v: &Version, s: &SoundData, b: &mut BiffWriter) requires old(b).data@.len() == 0 ensures final(b).data@ == snd_enc(*s, *v) { unimplemented!() }
pub uninterp spec fn coll_of(d: Seq<u8>) -> Collection;
pub uninterp spec fn coll_enc(s: Collection) -> Seq<u8>;
#[verifier::external_body] pub fn collection_read(d: &[u8]) -> (r: Collection) ensures r == coll_of(d@) { unimplemented!() }
#[verifier::external_body] pub fn collection_write(c: &Collection) -> (r: Vec<u8>) ensures r@ == coll_enc(*c) { unimplemented!() }
pub uninterp spec fn font_of(d: Seq<u8>) -> FontData;
pub uninterp spec fn font_enc(s: FontData) -> Seq<u8>;
#[verifier::external_body] pub fn font_read(d: &[u8]) -> (r: FontData) ensures r == font_of(d@) { unimplemented!() }
#[verifier::external_body] pub fn font_write(c: &FontData) -> (r: Vec<u8>) ensures r@ == font_enc(*c) { unimplemented!() }
pub uninterp spec fn tags_of(d: Seq<u8>) -> CustomInfoTags;
pub uninterp spec fn tags_none() -> CustomInfoTags;
pub uninterp spec fn tags_enc(s: CustomInfoTags) -> Seq<u8>;
impl CustomInfoTags { #[verifier::external_body] pub fn default() -> (r: CustomInfoTags) ensures r == tags_none() { unimplemented!() } }
#[verifier::external_body] pub fn tags_read(d: &[u8]) -> (r: CustomInfoTags) ensures r == tags_of(d@) { unimplemented!() }
#[verifier::external_body] pub fn tags_write(c: &CustomInfoTags) -> (r: Vec<u8>) ensures r@ == tags_enc(*c) { unimplemented!() }
pub uninterp spec fn img_of(d: Seq<u8>) -> ImageData;
pub uninterp spec fn img_enc(s: ImageData) -> Seq<u8>;
impl ImageData {
    #[verifier::external_body] pub fn biff_read(b: &mut BiffReader<'_>) -> (r: ImageData) ensures r == img_of(old(b).data@.skip(old(b).pos as int)) { unimplemented!() }
    #[verifier::external_body] pub fn biff_write(&self, b: &mut BiffWriter) requires old(b).data@.len() == 0 ensures final(b).data@ == img_enc(*self) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: ImageData) ensures r == *self { unimplemented!() }
}
/// the table information touches only streams under TableInfo
pub proof fn lemma_put_info(m: Map<Seq<char>, Seq<u8>>, i: TableInfo)
    ensures forall|k: Seq<char>| kind(k) != 9 ==> (#[trigger] put_info(m, i).contains_key(k)) == m.contains_key(k) && put_info(m, i)[k] == m[k],
{
    lemma_info_apart(m, i);
    assert forall|k: Seq<char>| kind(k) != 9 implies #[trigger] apart(k) by { reveal(apart); reveal_strlit("TableInfo/"); if k.len() >= 10 { assert(k.take(10)[0] == k[0]); } }
    assert forall|k: Seq<char>| kind(k) != 9 implies (#[trigger] put_info(m, i).contains_key(k)) == m.contains_key(k) && put_info(m, i)[k] == m[k] by { assert(apart(k)); }
}
pub proof fn lemma_tip_kind(n: Seq<char>) ensures kind(tip(n)) == 9 { reveal_strlit("TableInfo/"); assert(tip(n)[0] == 'T'); }
/// every further information name can be a component of a path
pub open spec fn plain_names(i: TableInfo) -> bool { forall|j: int| 0 <= j < i.properties.pairs().len() ==> plain(#[trigger] i.properties.pairs()[j].0@) }

pub open spec fn gi_encs(s: Seq<GameItemEnum>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| gi_enc(s[i])) }
pub open spec fn img_encs(s: Seq<ImageData>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| img_enc(s[i])) }
pub open spec fn snd_encs(s: Seq<SoundData>, v: Version) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| snd_enc(s[i], v)) }
pub open spec fn font_encs(s: Seq<FontData>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| font_enc(s[i])) }
pub open spec fn coll_encs(s: Seq<Collection>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| coll_enc(s[i])) }
/// streams p0, p1, ... with the given bytes
pub open spec fn put_all(m: Map<Seq<char>, Seq<u8>>, p: Seq<char>, b: Seq<Seq<u8>>) -> Map<Seq<char>, Seq<u8>> decreases b.len() {
    if b.len() == 0 { m } else { put_all(m, p, b.drop_last()).insert(nth(p, b.len() - 1), b.last()) }
}
pub open spec fn all_there(m: Map<Seq<char>, Seq<u8>>, p: Seq<char>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] m.contains_key(nth(p, i)) }
pub open spec fn none_there(m: Map<Seq<char>, Seq<u8>>, p: Seq<char>) -> bool { forall|i: int| 0 <= i ==> !#[trigger] m.contains_key(nth(p, i)) }
/// the bytes of streams p0 .. p(n-1)
pub open spec fn nths(m: Map<Seq<char>, Seq<u8>>, p: Seq<char>, n: int) -> Seq<Seq<u8>> { Seq::new(n as nat, |i: int| m[nth(p, i)]) }
/// one of the streams p0 .. p(n-1)
#[verifier::opaque]
pub open spec fn in_run(p: Seq<char>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && k == #[trigger] nth(p, i) }
pub proof fn lemma_in_run(p: Seq<char>, n: int, k: Seq<char>) requires 0 < n, !in_run(p, n, k) ensures k != nth(p, n - 1), !in_run(p, n - 1, k) { reveal(in_run); }
pub proof fn lemma_not_in_run(p: Seq<char>, n: int, k: Seq<char>, d: int) requires kind(k) != d, forall|i: int| kind(#[trigger] nth(p, i)) == d ensures !in_run(p, n, k) { reveal(in_run); }
pub proof fn lemma_put_all(m: Map<Seq<char>, Seq<u8>>, p: Seq<char>, b: Seq<Seq<u8>>)
    ensures
        all_there(put_all(m, p, b), p, b.len() as int), nths(put_all(m, p, b), p, b.len() as int) == b,
        forall|k: Seq<char>| !in_run(p, b.len() as int, k) ==> ((#[trigger] put_all(m, p, b).contains_key(k)) == m.contains_key(k)) && put_all(m, p, b)[k] == m[k],
    decreases b.len(),
{
    lemma_kinds();
    if b.len() > 0 {
        let c = b.drop_last();
        lemma_put_all(m, p, c);
        let n = c.len() as int;
        let y = put_all(m, p, c);
        let z = put_all(m, p, b);
        assert(z == y.insert(nth(p, n), b.last()));
        assert forall|i: int| 0 <= i < b.len() implies z.contains_key(#[trigger] nth(p, i)) && z[nth(p, i)] == b[i] by {
            if i < n { assert(y.contains_key(nth(p, i))); assert(nths(y, p, n)[i] == c[i]); assert(nth(p, i) != nth(p, n)); }
        }
        assert forall|k: Seq<char>| !in_run(p, b.len() as int, k) implies ((#[trigger] z.contains_key(k)) == m.contains_key(k)) && z[k] == m[k] by {
            lemma_in_run(p, n + 1, k);
            assert(y.contains_key(k) == m.contains_key(k));
        }
    }
    assert(nths(put_all(m, p, b), p, b.len() as int) =~= b);
}
/// the same, told by kinds
pub proof fn lemma_put_kind(m: Map<Seq<char>, Seq<u8>>, p: Seq<char>, b: Seq<Seq<u8>>, n: int)
    requires forall|i: int| kind(#[trigger] nth(p, i)) == n,
    ensures
        all_there(put_all(m, p, b), p, b.len() as int), nths(put_all(m, p, b), p, b.len() as int) == b,
        forall|k: Seq<char>| kind(k) != n ==> ((#[trigger] put_all(m, p, b).contains_key(k)) == m.contains_key(k)) && put_all(m, p, b)[k] == m[k],
{
    lemma_put_all(m, p, b);
    let z = put_all(m, p, b);
    assert forall|k: Seq<char>| kind(k) != n implies ((#[trigger] z.contains_key(k)) == m.contains_key(k)) && z[k] == m[k] by {
        lemma_not_in_run(p, b.len() as int, k, n);
        assert(!in_run(p, b.len() as int, k));
        assert(z.contains_key(k) == m.contains_key(k));
        assert(z[k] == m[k]);
    }
}
pub open spec fn with_mac(m: Map<Seq<char>, Seq<u8>>) -> Map<Seq<char>, Seq<u8>> { m.insert(k_mac(), mac_of(m)) }
pub open spec fn st_head(m: Map<Seq<char>, Seq<u8>>, v: VPX) -> Map<Seq<char>, Seq<u8>> {
    put_info(m.insert(k_tags(), tags_enc(v.custominfotags)), v.info).insert(k_version(), b32(v.version.0)).insert(k_gamedata(), gd_enc(v.gamedata, v.version))
}
pub open spec fn st_items(m: Map<Seq<char>, Seq<u8>>, v: VPX) -> Map<Seq<char>, Seq<u8>> { put_all(st_head(m, v), k_item(), gi_encs(v.gameitems@)) }
pub open spec fn st_images(m: Map<Seq<char>, Seq<u8>>, v: VPX) -> Map<Seq<char>, Seq<u8>> { put_all(st_items(m, v), k_image(), img_encs(v.images@)) }
pub open spec fn st_sounds(m: Map<Seq<char>, Seq<u8>>, v: VPX) -> Map<Seq<char>, Seq<u8>> { put_all(st_images(m, v), k_sound(), snd_encs(v.sounds@, v.version)) }
pub open spec fn st_fonts(m: Map<Seq<char>, Seq<u8>>, v: VPX) -> Map<Seq<char>, Seq<u8>> { put_all(st_sounds(m, v), k_font(), font_encs(v.fonts@)) }
pub open spec fn st_colls(m: Map<Seq<char>, Seq<u8>>, v: VPX) -> Map<Seq<char>, Seq<u8>> { put_all(st_fonts(m, v), k_coll(), coll_encs(v.collections@)) }
/// every stream of a written table
pub open spec fn written(m: Map<Seq<char>, Seq<u8>>, v: VPX) -> Map<Seq<char>, Seq<u8>> { with_mac(st_colls(m, v)) }
pub proof fn lemma_before_images(m: Map<Seq<char>, Seq<u8>>, v: VPX)
    ensures none_there(m, k_image()) ==> none_there(st_items(m, v), k_image()),
{
    lemma_kinds(); lemma_put_info(m.insert(k_tags(), tags_enc(v.custominfotags)), v.info); lemma_put_kind(st_head(m, v), k_item(), gi_encs(v.gameitems@), 5);
    if none_there(m, k_image()) {
        assert forall|i: int| 0 <= i implies !#[trigger] st_items(m, v).contains_key(nth(k_image(), i)) by {
            let k = nth(k_image(), i);
            assert(kind(k) == 3);
            assert(!m.contains_key(k));
            assert(!put_info(m.insert(k_tags(), tags_enc(v.custominfotags)), v.info).contains_key(k));
        }
    }
}
pub open spec fn tags_in(m: Map<Seq<char>, Seq<u8>>) -> CustomInfoTags { if m.contains_key(k_tags()) { tags_of(m[k_tags()]) } else { tags_none() } }
pub open spec fn version_in(m: Map<Seq<char>, Seq<u8>>, v: Version) -> bool { m.contains_key(k_version()) && v.0 == u32_at(m[k_version()], 0) }
pub open spec fn gamedata_in(m: Map<Seq<char>, Seq<u8>>, g: GameData) -> bool { m.contains_key(k_gamedata()) && g == gd_of(m[k_gamedata()], Version(u32_at(m[k_version()], 0))) }
pub open spec fn items_in(m: Map<Seq<char>, Seq<u8>>, g: GameData) -> Seq<GameItemEnum> { nths(m, k_item(), g.gameitems_size as int).map_values(|d: Seq<u8>| gi_of(d)) }
pub open spec fn images_in(m: Map<Seq<char>, Seq<u8>>, g: GameData) -> Seq<ImageData> { nths(m, k_image(), g.images_size as int).map_values(|d: Seq<u8>| img_of(d)) }
pub open spec fn sounds_in(m: Map<Seq<char>, Seq<u8>>, g: GameData, v: Version) -> Seq<SoundData> { nths(m, k_sound(), g.sounds_size as int).map_values(|d: Seq<u8>| snd_of(d, v)) }
pub open spec fn fonts_in(m: Map<Seq<char>, Seq<u8>>, g: GameData) -> Seq<FontData> { nths(m, k_font(), g.fonts_size as int).map_values(|d: Seq<u8>| font_of(d)) }
pub open spec fn colls_in(m: Map<Seq<char>, Seq<u8>>, g: GameData) -> Seq<Collection> { nths(m, k_coll(), g.collections_size as int).map_values(|d: Seq<u8>| coll_of(d)) }
/// the table a container holds
pub open spec fn holds(m: Map<Seq<char>, Seq<u8>>, v: VPX) -> bool {
    &&& v.custominfotags == tags_in(m) && info_in(m, v.info) && version_in(m, v.version) && gamedata_in(m, v.gamedata)
    &&& v.gameitems@ == items_in(m, v.gamedata) && v.images@ == images_in(m, v.gamedata) && v.sounds@ == sounds_in(m, v.gamedata, v.version)
    &&& v.fonts@ == fonts_in(m, v.gamedata) && v.collections@ == colls_in(m, v.gamedata)
}
/// every stream the settings announce is there
pub open spec fn complete(m: Map<Seq<char>, Seq<u8>>) -> bool {
    let g = gd_of(m[k_gamedata()], Version(u32_at(m[k_version()], 0)));
    &&& has4(m, k_version()) && m.contains_key(k_gamedata()) && info_texts(m)
    &&& all_there(m, k_item(), g.gameitems_size as int) && all_there(m, k_image(), g.images_size as int) && all_there(m, k_sound(), g.sounds_size as int)
    &&& all_there(m, k_font(), g.fonts_size as int) && all_there(m, k_coll(), g.collections_size as int)
}
/// the announced counts are those of the lists
pub open spec fn counted(v: VPX) -> bool {
    v.gamedata.gameitems_size == v.gameitems@.len() && v.gamedata.images_size == v.images@.len() && v.gamedata.sounds_size == v.sounds@.len() && v.gamedata.fonts_size == v.fonts@.len() && v.gamedata.collections_size == v.collections@.len()
}
/// each part comes back from its own bytes (P03, P05, P06)
pub open spec fn parts_ok(v: VPX) -> bool {
    &&& tags_of(tags_enc(v.custominfotags)) == v.custominfotags && gd_of(gd_enc(v.gamedata, v.version), v.version) == v.gamedata
    &&& forall|i: int| 0 <= i < v.gameitems@.len() ==> gi_of(gi_enc(#[trigger] v.gameitems@[i])) == v.gameitems@[i]
    &&& forall|i: int| 0 <= i < v.images@.len() ==> img_of(img_enc(#[trigger] v.images@[i])) == v.images@[i]
    &&& forall|i: int| 0 <= i < v.sounds@.len() ==> snd_of(snd_enc(#[trigger] v.sounds@[i], v.version), v.version) == v.sounds@[i]
    &&& forall|i: int| 0 <= i < v.fonts@.len() ==> font_of(font_enc(#[trigger] v.fonts@[i])) == v.fonts@[i]
    &&& forall|i: int| 0 <= i < v.collections@.len() ==> coll_of(coll_enc(#[trigger] v.collections@[i])) == v.collections@[i]
}
/// a table written and read again is the same table, part by part and in the same order
pub proof fn lemma_read_back(m: Map<Seq<char>, Seq<u8>>, v: VPX, w: VPX)
    requires counted(v), parts_ok(v), no_info(m), names_ok(v.info),
    ensures
        complete(written(m, v)),
        holds(written(m, v), w) ==> {
            &&& same_info(v.info, w.info) && w.custominfotags == v.custominfotags && w.version == v.version && w.gamedata == v.gamedata
            &&& w.gameitems@ == v.gameitems@ && w.images@ == v.images@ && w.sounds@ == v.sounds@ && w.fonts@ == v.fonts@ && w.collections@ == v.collections@
        },
{
    broadcast use {vpin_base, lemma_b32};
    lemma_kinds();
    let m0 = m.insert(k_tags(), tags_enc(v.custominfotags));
    lemma_put_info(m0, v.info);
    let h = st_head(m, v);
    assert(h[k_tags()] == tags_enc(v.custominfotags) && h.contains_key(k_tags())) by { assert(put_info(m0, v.info).contains_key(k_tags()) == m0.contains_key(k_tags())); }
    lemma_put_kind(h, k_item(), gi_encs(v.gameitems@), 5);
    lemma_put_kind(st_items(m, v), k_image(), img_encs(v.images@), 3);
    lemma_put_kind(st_images(m, v), k_sound(), snd_encs(v.sounds@, v.version), 2);
    lemma_put_kind(st_sounds(m, v), k_font(), font_encs(v.fonts@), 4);
    lemma_put_kind(st_fonts(m, v), k_coll(), coll_encs(v.collections@), 7);
    let z = written(m, v);
    lemma_single(m, v, k_tags()); lemma_single(m, v, k_version()); lemma_single(m, v, k_gamedata());
    assert(b32(v.version.0).subrange(0, 4) =~= b32(v.version.0));
    lemma_lists(m, v);
    lemma_info_kept(m, v, w.info);
    if holds(z, w) {
        assert(w.version == v.version);
        assert(w.gamedata == v.gamedata);
        assert(w.gameitems@ =~= v.gameitems@);
        assert(w.images@ =~= v.images@);
        assert(w.sounds@ =~= v.sounds@);
        assert(w.fonts@ =~= v.fonts@);
        assert(w.collections@ =~= v.collections@);
    }
}
pub proof fn lemma_info_kept(m: Map<Seq<char>, Seq<u8>>, v: VPX, i: TableInfo)
    requires no_info(m), names_ok(v.info),
    ensures info_texts(written(m, v)), info_in(written(m, v), i) ==> same_info(v.info, i),
{
    lemma_kinds();
    let m0 = m.insert(k_tags(), tags_enc(v.custominfotags));
    let a = written(m, v);
    let b = put_info(m0, v.info);
    assert forall|n: Seq<char>| (#[trigger] a.contains_key(tip(n))) == b.contains_key(tip(n)) && a[tip(n)] == b[tip(n)] by { lemma_tip_kind(n); lemma_single(m, v, tip(n)); }
    assert(no_info(m0)) by { assert forall|n: Seq<char>| !#[trigger] m0.contains_key(tip(n)) by { lemma_tip_kind(n); assert(!m.contains_key(tip(n))); } }
    lemma_info_texts(m0, v.info);
    assert forall|n: Seq<char>| #[trigger] a.contains_key(tip(n)) && plain(n) && n != "Screenshot"@ implies utf16_ok(a[tip(n)]) by { assert(b.contains_key(tip(n))); }
    if info_in(a, i) { lemma_info_frame(a, b, i); lemma_info_back(m0, v.info, i); }
}
pub proof fn lemma_single(m: Map<Seq<char>, Seq<u8>>, v: VPX, k: Seq<char>)
    requires kind(k) == 8 || kind(k) == 1 || kind(k) == 6 || kind(k) == 9,
    ensures written(m, v).contains_key(k) == st_head(m, v).contains_key(k), written(m, v)[k] == st_head(m, v)[k],
{
    lemma_kinds();
    lemma_put_kind(st_head(m, v), k_item(), gi_encs(v.gameitems@), 5);
    lemma_put_kind(st_items(m, v), k_image(), img_encs(v.images@), 3);
    lemma_put_kind(st_images(m, v), k_sound(), snd_encs(v.sounds@, v.version), 2);
    lemma_put_kind(st_sounds(m, v), k_font(), font_encs(v.fonts@), 4);
    lemma_put_kind(st_fonts(m, v), k_coll(), coll_encs(v.collections@), 7);
    assert(st_items(m, v).contains_key(k) == st_head(m, v).contains_key(k));
    assert(st_images(m, v).contains_key(k) == st_items(m, v).contains_key(k));
    assert(st_sounds(m, v).contains_key(k) == st_images(m, v).contains_key(k));
    assert(st_fonts(m, v).contains_key(k) == st_sounds(m, v).contains_key(k));
    assert(st_colls(m, v).contains_key(k) == st_fonts(m, v).contains_key(k));
}
pub proof fn lemma_lists(m: Map<Seq<char>, Seq<u8>>, v: VPX)
    ensures
        all_there(written(m, v), k_item(), v.gameitems@.len() as int), nths(written(m, v), k_item(), v.gameitems@.len() as int) == gi_encs(v.gameitems@),
        all_there(written(m, v), k_image(), v.images@.len() as int), nths(written(m, v), k_image(), v.images@.len() as int) == img_encs(v.images@),
        all_there(written(m, v), k_sound(), v.sounds@.len() as int), nths(written(m, v), k_sound(), v.sounds@.len() as int) == snd_encs(v.sounds@, v.version),
        all_there(written(m, v), k_font(), v.fonts@.len() as int), nths(written(m, v), k_font(), v.fonts@.len() as int) == font_encs(v.fonts@),
        all_there(written(m, v), k_coll(), v.collections@.len() as int), nths(written(m, v), k_coll(), v.collections@.len() as int) == coll_encs(v.collections@),
{
    lemma_kinds();
    lemma_put_kind(st_head(m, v), k_item(), gi_encs(v.gameitems@), 5);
    lemma_put_kind(st_items(m, v), k_image(), img_encs(v.images@), 3);
    lemma_put_kind(st_images(m, v), k_sound(), snd_encs(v.sounds@, v.version), 2);
    lemma_put_kind(st_sounds(m, v), k_font(), font_encs(v.fonts@), 4);
    lemma_put_kind(st_fonts(m, v), k_coll(), coll_encs(v.collections@), 7);
    let z = written(m, v);
    lemma_carry(st_items(m, v), st_images(m, v), k_item(), v.gameitems@.len() as int, 5, 3);
    lemma_carry(st_images(m, v), st_sounds(m, v), k_item(), v.gameitems@.len() as int, 5, 2);
    lemma_carry(st_sounds(m, v), st_fonts(m, v), k_item(), v.gameitems@.len() as int, 5, 4);
    lemma_carry(st_fonts(m, v), st_colls(m, v), k_item(), v.gameitems@.len() as int, 5, 7);
    lemma_carry(st_colls(m, v), z, k_item(), v.gameitems@.len() as int, 5, 0);
    lemma_carry(st_images(m, v), st_sounds(m, v), k_image(), v.images@.len() as int, 3, 2);
    lemma_carry(st_sounds(m, v), st_fonts(m, v), k_image(), v.images@.len() as int, 3, 4);
    lemma_carry(st_fonts(m, v), st_colls(m, v), k_image(), v.images@.len() as int, 3, 7);
    lemma_carry(st_colls(m, v), z, k_image(), v.images@.len() as int, 3, 0);
    lemma_carry(st_sounds(m, v), st_fonts(m, v), k_sound(), v.sounds@.len() as int, 2, 4);
    lemma_carry(st_fonts(m, v), st_colls(m, v), k_sound(), v.sounds@.len() as int, 2, 7);
    lemma_carry(st_colls(m, v), z, k_sound(), v.sounds@.len() as int, 2, 0);
    lemma_carry(st_fonts(m, v), st_colls(m, v), k_font(), v.fonts@.len() as int, 4, 7);
    lemma_carry(st_colls(m, v), z, k_font(), v.fonts@.len() as int, 4, 0);
    lemma_carry(st_colls(m, v), z, k_coll(), v.collections@.len() as int, 7, 0);
}
/// streams of one kind survive changes to another kind
pub proof fn lemma_carry(a: Map<Seq<char>, Seq<u8>>, b: Map<Seq<char>, Seq<u8>>, p: Seq<char>, n: int, ours: int, theirs: int)
    requires
        0 <= n, ours != theirs, all_there(a, p, n), forall|i: int| kind(#[trigger] nth(p, i)) == ours,
        forall|k: Seq<char>| kind(k) != theirs ==> ((#[trigger] b.contains_key(k)) == a.contains_key(k)) && b[k] == a[k],
    ensures all_there(b, p, n), nths(b, p, n) == nths(a, p, n),
{
    assert forall|i: int| 0 <= i < n implies b.contains_key(#[trigger] nth(p, i)) && b[nth(p, i)] == a[nth(p, i)] by { let k = nth(p, i); assert(a.contains_key(k)); assert(kind(k) == ours); assert(b.contains_key(k) == a.contains_key(k)); }
    assert(nths(b, p, n) =~= nths(a, p, n));
}
pub open spec fn kept<F>(a: VpxFile<F>, b: VpxFile<F>) -> bool { b.compound_file@ == a.compound_file@ && b.compound_file.ok() == a.compound_file.ok() }
pub open spec fn readable<F>(a: VpxFile<F>) -> bool { a.compound_file.ok() && has4(a.compound_file@, k_version()) && a.compound_file@.contains_key(k_gamedata()) }
/// only the settings and the signature change
pub open spec fn regd(m: Map<Seq<char>, Seq<u8>>, g: GameData) -> Map<Seq<char>, Seq<u8>> { with_mac(m.insert(k_gamedata(), gd_enc(g, Version(u32_at(m[k_version()], 0))))) }
pub broadcast proof fn lemma_and1(x: u32) ensures #[trigger] (x & 1) == x % 2 { assert(x & 1 == x % 2) by (bit_vector); }
pub open spec fn is_odd(c: Option<u32>) -> bool { c is Some && (c->0) % 2 == 1 }
pub open spec fn toggled(g: GameData) -> GameData { GameData { locked: Some(if g.locked is Some { if g.locked->0 == u32::MAX { 0u32 } else { (g.locked->0 + 1) as u32 } } else { 1u32 }), ..g } }
/// locking then reading the lock says locked, whatever the counter was
pub proof fn lemma_toggle(g: GameData) ensures is_odd(toggled(g).locked) == !is_odd(g.locked) { }
