@@module cgamedata src/vpx/gamedata.rs
@@broadcast vpin_base
@@item struct GameData
@@itemreduce struct GameData gameitems_size,sounds_size,images_size,fonts_size,collections_size,locked,code GameDataRest
@@fn GameData::set_code
    ensures final(self).code.string@ == script@, *final(self) == (GameData { code: final(self).code, ..*old(self) }),
@@extra
/// the settings the container functions do not look at
#[verifier::external_body] pub struct GameDataRest { r: u8 }
