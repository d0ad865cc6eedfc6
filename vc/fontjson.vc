@@module fontjson src/vpx/font.rs
@@broadcast vpin_base, vpin_str, vpin_seq, axiom_mk_string, axiom_mk_vec
@@item struct FontData
@@item struct FontDataJson
@@fn FontData::ext
@@external
    ensures r@ == font_ext(self.path@), dotless(r@),
@@fn FontDataJson::from_font_data
    ensures fj_view(r) == (FjV { name: font_data.name@, path: font_data.path@, dedup: None }),
@@fn FontDataJson::to_font_data
    ensures r.name@ == self.name@, r.path@ == self.path@,
@@extra
/// assumed: what follows the last dot of a path
pub uninterp spec fn font_ext(p: Seq<char>) -> Seq<char>;
pub struct FjV { pub name: Seq<char>, pub path: Seq<char>, pub dedup: Option<Seq<char>> }
pub open spec fn fj_view(j: FontDataJson) -> FjV { FjV { name: j.name@, path: j.path@, dedup: match j.name_dedup { Some(x) => Some(x@), None => None } } }
impl VJson for Vec<FontDataJson> { type J = Seq<FjV>; open spec fn json(&self) -> Seq<FjV> { self@.map_values(|j: FontDataJson| fj_view(j)) } }
/// assumed: texts have no numbers
pub broadcast axiom fn axiom_plain_fonts(j: Seq<FjV>) ensures #[trigger] json_plain::<Seq<FjV>>(j);
