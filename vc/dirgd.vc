@@module dirgd src/vpx/gamedata.rs
@@broadcast vpin_base
@@item struct GameData
@@itemreduce struct GameData gameitems_size,sounds_size,images_size,fonts_size,collections_size,materials_size,materials_old,materials_physics_old,materials,render_probes,code GameDataRest
@@extra
/// the settings that are kept as JSON
#[verifier::external_body] pub struct GameDataRest { r: u8 }
#[verifier::external_body] pub struct GameDataJson { r: u8 }
/// assumed: the settings come back from their JSON form while that holds all of them, and it holds no materials (decided by the job json)
pub uninterp spec fn gd_form(r: GameDataRest) -> GameDataJson;
pub uninterp spec fn gd_plain(r: GameDataRest) -> bool;
pub open spec fn from_gd(j: GameDataJson, r: GameDataRest) -> bool { forall|x: GameDataRest| gd_plain(x) && j == #[trigger] gd_form(x) ==> r == x }
impl GameDataJson {
    #[verifier::external_body] pub fn from_game_data(g: &GameData) -> (r: GameDataJson) ensures r == gd_form(g.rest) { unimplemented!() }
    #[verifier::external_body] pub fn to_game_data(&self) -> (r: GameData) ensures from_gd(*self, r.rest), r.materials is None { unimplemented!() }
}
impl VJson for GameDataJson { type J = GameDataJson; open spec fn json(&self) -> GameDataJson { *self } }
pub open spec fn gd_kept(r: GameDataRest) -> bool { gd_plain(r) && json_plain(gd_form(r)) }
pub open spec fn gd_text(r: GameDataRest) -> Seq<u8> { json_text(gd_form(r)) }
