//! Whole tables with parts of every kind, and their comparison.
use crate::data::*;
use crate::gen_items::*;
use crate::mesh::{self, Mesh};
use crate::parts::*;
use crate::*;
use vpin::vpx::VPX;
use vpin::vpx::gameitem::generic::Generic;
use vpin::vpx::gameitem::primitive::Primitive;
use vpin::vpx::gameitem::*;
use vpin::vpx::image::{ImageDataBits, ImageDataJpeg};
use vpin::vpx::lzw::to_lzw_blocks;
use vpin::vpx::material::{SaveMaterial, SavePhysicsMaterial};
use vpin::vpx::sound::WaveForm;
use vpin::vpx::version::Version;

/// names that differ little or not at all once made fit for a file name
pub const NAMES: [&str; 44] = [
    "a b", "a_b", "A_B", "a?b", "ab", "AB", "a/b", "a\\b", "a__1", "a_b__1", "a_b__2", "a_b_dedup1", "ab_dedup1", "AB_dedup2", "ab_dedup1_dedup2", "", "unnamed", "Unnamed", "???", "***", ".", "..", "con", "CON", "aux.txt", "x.",
    "x", "x ", "\u{1}x", "Größe", "größe", "GRÖSSE", "日本", "Ω", "ω", "İ", "i̇", "json", "p.json", "p_anim_0", "p_anim_1", "p", "new\nline", "unnamed__1",
];
thread_local! {
    /// the few names and the one kind of element a table is made of
    static POOL: std::cell::Cell<Option<(usize, usize)>> = const { std::cell::Cell::new(None) };
    static KIND: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}
fn name(r: &mut Rng, unique: bool) -> String {
    if let (false, Some((a, n))) = (unique, POOL.get()) {
        return NAMES[(a + r.below(n)) % NAMES.len()].to_string();
    }
    if unique { r.unicode(12) } else if r.chance(4) { r.latin1(10) } else { r.pick(&NAMES).to_string() }
}
pub struct Options {
    /// draw names from a few that collide
    pub collide: bool,
    /// only what the container can hold (Latin-1 names of media, no generic elements)
    pub container: bool,
    pub max: usize,
}
macro_rules! random_item {
    ($r:ident, $n:ident; $($T:ident $random:ident),*) => {{
        let n = [$(stringify!($T)),*].len();
        let k = $r.below(n);
        let k = KIND.get().map_or(k, |f| f % n);
        let mut i = 0;
        $(
            if i == k {
                let mut x = $random($r);
                x.name = $n;
                return GameItemEnum::$T(x);
            }
            i += 1;
        )*
        let _ = i;
        unreachable!()
    }};
}
pub fn random_item(r: &mut Rng, n: String) -> GameItemEnum {
    random_item!(r, n; Wall random_Wall, Flipper random_Flipper, Timer random_Timer, Plunger random_Plunger, TextBox random_TextBox, Bumper random_Bumper,
        Trigger random_Trigger, Light random_Light, Kicker random_Kicker, Decal random_Decal, Gate random_Gate, Spinner random_Spinner, Ramp random_Ramp,
        Reel random_Reel, LightSequencer random_LightSequencer, Flasher random_Flasher, Rubber random_Rubber, HitTarget random_HitTarget, Ball random_Ball,
        PartGroup random_PartGroup)
}
pub fn item(r: &mut Rng, o: &Options) -> (GameItemEnum, Option<Mesh>) {
    let n = name(r, !o.collide);
    match r.below(if o.container { 3 } else { 4 }) {
        0 => {
            let mut p: Primitive = random_Primitive(r);
            p.name = n;
            let m = if r.chance(3) {
                mesh::no_mesh(&mut p);
                None
            } else {
                let (v, f) = (1 + r.below(6), r.below(4));
                let c = if r.bool() { Some(1 + r.below(11)) } else { None };
                let m = mesh::mesh(r, v, f, c, false);
                mesh::put(&mut p, &m, 6);
                Some(m)
            };
            (GameItemEnum::Primitive(p), m)
        }
        3 => (GameItemEnum::Generic(25 + r.below(900) as u32, Generic { name: n, fields: (0..r.below(4)).map(|_| (r.latin1(4), r.bytes(20))).collect() }), None),
        _ => (random_item(r, n), None),
    }
}
fn real_file(r: &mut Rng, ext: &str) -> (Vec<u8>, u32, u32) {
    let (w, h) = (1 + r.below(9) as u32, 1 + r.below(9) as u32);
    let img = image::DynamicImage::ImageRgba8(image::RgbaImage::from_fn(w, h, |_, _| image::Rgba([r.u8(), r.u8(), r.u8(), 255])));
    let mut b = std::io::Cursor::new(vec![]);
    let f = image::ImageFormat::from_extension(ext).unwrap_or(image::ImageFormat::Png);
    if img.write_to(&mut b, f).is_err() {
        b = std::io::Cursor::new(vec![]);
        let _ = img.to_rgb8().write_to(&mut b, image::ImageFormat::Png);
    }
    (b.into_inner(), w, h)
}
pub fn picture(r: &mut Rng, o: &Options) -> ImageDataOf {
    let mut x = image(r);
    x.name = name(r, !o.collide);
    x.bits = None;
    x.jpeg = None;
    x.link = None;
    x.path = format!("c:\\dir\\{}.{}", r.ascii(8).replace('.', "_"), r.pick(&["png", "jpg", "PNG", "webp", "hdr", "exr", "jpeg", "xyz"]));
    match r.below(4) {
        0 => x.link = Some(1),
        1 => {
            x.path = format!("x.{}", r.pick(&["bmp", "BMP", "Bmp"]));
            x.width = 1 + r.below(20) as u32;
            x.height = 1 + r.below(20) as u32;
            let opaque = r.bool();
            let p: Vec<u8> = (0..x.width * x.height * 4).map(|k| if k % 4 == 3 && opaque { 255 } else { r.u8() }).collect();
            x.bits = Some(ImageDataBits { lzw_compressed_data: to_lzw_blocks(&p) });
        }
        _ => {
            let mut j = jpeg(r);
            if r.bool() {
                j.name = x.name.clone();
            }
            if r.bool() {
                j.path = x.path.clone();
            }
            if r.bool() {
                let ext = x.path.rsplit('.').next().unwrap().to_lowercase();
                let (b, w, h) = real_file(r, &ext);
                j.data = b;
                if r.chance(3) {
                    x.width = w;
                } else if r.bool() {
                    (x.width, x.height) = (w, h);
                }
            }
            x.jpeg = Some(j);
            if r.chance(4) {
                x.link = Some(0);
            }
        }
    }
    if o.container {
        latin(&mut x.name);
        if let Some(ImageDataJpeg { name, .. }) = &mut x.jpeg {
            latin(name);
        }
    }
    x
}
pub type ImageDataOf = vpin::vpx::image::ImageData;
fn latin(s: &mut String) {
    *s = s.chars().map(|c| if (c as u32) < 256 && c != '\0' { c } else { '_' }).collect();
}
fn noise(r: &mut Rng, o: &Options, version: u32) -> vpin::vpx::sound::SoundData {
    let mut x = sound(r, version);
    x.name = name(r, !o.collide);
    if o.container {
        latin(&mut x.name);
    }
    if !SOUND_PATHS.iter().find(|p| p.0 == x.path).unwrap().1 {
        x.wave_form = WaveForm::default();
    }
    if x.wave_form.format_tag == 1 {
        x.wave_form.cb_size = 0;
    }
    x
}
/// a table whose parts refer to each other consistently
pub fn table(r: &mut Rng, o: &Options) -> (VPX, Vec<Option<Mesh>>) {
    FINITE.with(|f| f.set(true));
    let version = if r.chance(3) { *r.pick(&[0, 1, 99, 600, 1030, 1031, 1072, 9999]) } else { random_version(r) };
    VERSION.set(version);
    let mut v = VPX { version: Version::new(version), info: info(r), custominfotags: custom_tags(r), gamedata: random_settings(r), ..Default::default() };
    if version != 1080 {
        v.gamedata.is_10_8_0_beta1_to_beta4 = false;
    }
    let g = &mut v.gamedata;
    if !o.container && r.chance(8) {
        g.render_probes = Some(vec![]);
    }
    if !o.container && r.chance(8) {
        g.materials = Some(vec![]);
    }
    if let Some(m) = &g.materials {
        g.materials_old = m.iter().map(SaveMaterial::from).collect();
        g.materials_physics_old = Some(m.iter().map(SavePhysicsMaterial::from).collect());
        g.materials_size = m.len() as u32;
        if o.container {
            // the field that holds such a name has room for 31 characters
            let cut = |n: &mut String| *n = n.chars().take(31).collect();
            g.materials_old.iter_mut().for_each(|m| cut(&mut m.name));
            g.materials_physics_old.iter_mut().flatten().for_each(|m| cut(&mut m.name));
        }
    }
    let mut meshes = vec![];
    let (a, n, k) = (r.below(NAMES.len()), 1 + r.below(4), r.below(1000));
    POOL.set((o.collide && r.bool()).then_some((a, n)));
    KIND.set((o.collide && r.bool()).then_some(k));
    for _ in 0..r.below(o.max) {
        let (i, m) = item(r, o);
        v.gameitems.push(i);
        meshes.push(m);
    }
    for _ in 0..r.below(o.max) {
        v.images.push(picture(r, o));
    }
    for _ in 0..r.below(o.max) {
        v.sounds.push(noise(r, o, version));
    }
    for _ in 0..r.below(o.max) {
        let mut f = font_file(r);
        f.name = name(r, !o.collide);
        f.path = format!("c:\\fonts\\{}.{}", r.ascii(6).replace('.', "_"), r.pick(&["ttf", "TTF", "otf"]));
        if o.container {
            latin(&mut f.name);
        }
        v.fonts.push(f);
    }
    let many = if r.chance(4) { 9 + r.below(5) } else { r.below(4) };
    for _ in 0..many {
        let mut c = collection(r);
        c.name = name(r, !o.collide);
        v.collections.push(c);
    }
    let g = &mut v.gamedata;
    g.gameitems_size = v.gameitems.len() as u32;
    g.images_size = v.images.len() as u32;
    g.sounds_size = v.sounds.len() as u32;
    g.fonts_size = v.fonts.len() as u32;
    g.collections_size = v.collections.len() as u32;
    (v, meshes)
}
/// the same parts in the same order; meshes: their content when packed anew, none to compare the packed form
pub fn table_same(what: &str, mut got: VPX, mut want: VPX, meshes: Option<&[Option<Mesh>]>) -> R {
    same(&format!("{what}: version"), &got.version, &want.version)?;
    info_same(&format!("{what}: table info"), &got.info, &want.info)?;
    same(&format!("{what}: custom info names"), &got.custominfotags, &want.custominfotags)?;
    same_GameData(&format!("{what}: settings"), &got.gamedata, &want.gamedata)?;
    same(&format!("{what}: element count"), &got.gameitems.len(), &want.gameitems.len())?;
    for (k, (g, w)) in got.gameitems.iter_mut().zip(&mut want.gameitems).enumerate() {
        if let (GameItemEnum::Primitive(p), GameItemEnum::Primitive(q), Some(Some(m))) = (&mut *g, &mut *w, meshes.map(|m| &m[k])) {
            mesh::mesh_same(&format!("{what}: mesh of element {k}"), p, m)?;
            mesh::no_mesh(p);
            mesh::no_mesh(q);
        }
        same(&format!("{what}: element {k}"), g, w)?;
    }
    same(&format!("{what}: image count"), &got.images.len(), &want.images.len())?;
    for (k, (g, w)) in got.images.iter().zip(&want.images).enumerate() {
        image_same(&format!("{what}: image {k}"), g, w)?;
    }
    same(&format!("{what}: sound count"), &got.sounds.len(), &want.sounds.len())?;
    for (k, (g, w)) in got.sounds.iter().zip(&want.sounds).enumerate() {
        sound_same(&format!("{what}: sound {k}"), g, w)?;
    }
    same(&format!("{what}: font count"), &got.fonts.len(), &want.fonts.len())?;
    for (k, (g, w)) in got.fonts.iter().zip(&want.fonts).enumerate() {
        font_same(&format!("{what}: font {k}"), g, w)?;
    }
    same(&format!("{what}: collections"), &got.collections, &want.collections)
}
