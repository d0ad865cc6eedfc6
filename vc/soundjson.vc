@@module soundjson src/vpx/sound.rs
@@noinline
@@broadcast vpin_base, vpin_str, vpin_seq, axiom_mk_string, axiom_mk_vec
@@item struct SoundDataJson
@@fn SoundData::ext
@@external
    ensures r@ == snd_ext(self.path@), dotless(r@),
@@fn WaveForm::default@Default
@@rename default
    ensures r == wave_default(),
@@fn SoundDataJson::from_sound_data
@@subst \.output_target\.clone\(\)=>.output_target.v_clone()
    ensures sj_view(r) == (SjV { s: base_of(snd_view(*sound_data)), dedup: None }),
@@fn SoundDataJson::to_sound_data
@@subst \.output_target\.clone\(\)=>.output_target.v_clone()
    ensures snd_view(r) == sj_view(*self).s,
@@post
    assert(__ret.data@ =~= Seq::<u8>::empty());
@@extra
/// assumed: the path's extension, "wav" where it has none
pub uninterp spec fn snd_ext(p: Seq<char>) -> Seq<char>;
/// assumed: derived Clone returns an equal value
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl VClone for OutputTarget { #[verifier::external_body] fn v_clone(&self) -> (r: OutputTarget) { unimplemented!() } }
/// what the list of sounds keeps of a sound: all but its format and samples
pub open spec fn base_of(s: SoundV) -> SoundV { SoundV { data: Seq::empty(), wave_form: wave_default(), ..s } }
pub struct SjV { pub s: SoundV, pub dedup: Option<Seq<char>> }
pub open spec fn sj_view(j: SoundDataJson) -> SjV {
    SjV { s: SoundV { name: j.name@, path: j.path@, wave_form: wave_default(), data: Seq::empty(), internal_name: j.internal_name@, fade: j.fade, volume: j.volume, balance: j.balance, output_target: j.output_target },
        dedup: match j.name_dedup { Some(x) => Some(x@), None => None } }
}
impl VJson for Vec<SoundDataJson> { type J = Seq<SjV>; open spec fn json(&self) -> Seq<SjV> { self@.map_values(|j: SoundDataJson| sj_view(j)) } }
/// assumed: a sound's JSON form has whole numbers only
pub broadcast axiom fn axiom_plain_sounds(j: Seq<SjV>) ensures #[trigger] json_plain::<Seq<SjV>>(j);
