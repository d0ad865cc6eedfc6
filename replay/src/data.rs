//! Table-wide settings, materials and render probes: values together with the bytes of the file format.
use crate::draw::{self, Chunk, concat};
use crate::gen_items::*;
use crate::oracle::*;
use crate::Rng;
use std::cell::Cell;
use vpin::vpx::biff::{BiffRead, BiffReader, BiffWrite, BiffWriter};
use vpin::vpx::color::Color;
use vpin::vpx::gamedata::GameData;
use vpin::vpx::material::{Material, SaveMaterial, SavePhysicsMaterial};
use vpin::vpx::model::StringWithEncoding;
use vpin::vpx::renderprobe::RenderProbeWithGarbage;

thread_local! {
    /// the file version the settings are written for
    pub static VERSION: Cell<u32> = const { Cell::new(1081) };
}
fn padded(name: &str) -> Vec<u8> {
    let mut b = latin1(name);
    b.resize(32, 0);
    b
}
pub fn save_material_bytes(m: &SaveMaterial) -> Vec<u8> {
    let c = draw::color_bytes;
    let u = |x: u8| vec![x, 0, 0, 0];
    [padded(&m.name), c(&m.base_color), c(&m.glossy_color), c(&m.clearcoat_color), f(m.wrap_lighting), u(m.is_metal as u8), f(m.roughness), u(m.glossy_image_lerp), f(m.edge), u(m.thickness), f(m.opacity), u(m.opacity_active_edge_alpha)].concat()
}
pub fn save_physics_bytes(m: &SavePhysicsMaterial) -> Vec<u8> {
    [padded(&m.name), f(m.elasticity), f(m.elasticity_falloff), f(m.friction), f(m.scatter_angle)].concat()
}
/// a name that fits the fixed-size field
fn short_name(r: &mut Rng) -> String {
    if r.chance(5) { "n".repeat(31) } else { r.latin1(31) }
}
pub fn save_material(r: &mut Rng) -> SaveMaterial {
    SaveMaterial {
        name: short_name(r),
        base_color: draw::color(r).0,
        glossy_color: draw::color(r).0,
        clearcoat_color: draw::color(r).0,
        wrap_lighting: r.f32(),
        is_metal: r.bool(),
        roughness: r.f32(),
        glossy_image_lerp: r.u8(),
        edge: r.f32(),
        thickness: r.u8(),
        opacity: r.f32(),
        opacity_active_edge_alpha: r.u8(),
    }
}
pub fn save_physics(r: &mut Rng) -> SavePhysicsMaterial {
    SavePhysicsMaterial { name: short_name(r), elasticity: r.f32(), elasticity_falloff: r.f32(), friction: r.f32(), scatter_angle: r.f32() }
}
/// the records of a render probe; its fields are private, so a probe is made by reading them
pub fn probe_records(r: &mut Rng) -> Vec<Chunk> {
    let mut o = vec![];
    let mut p = |t: &str, b: Vec<u8>| o.push((t.to_string(), rec(t, &b)));
    p("TYPE", le32(r.below(2) as u32));
    p("NAME", str8(&r.latin1(20)));
    p("RBAS", le32(r.u32()));
    if r.bool() {
        p("RCLE", le32(r.u32()));
    }
    p("RPLA", [f(r.f32()), f(r.f32()), f(r.f32()), f(r.f32())].concat());
    p("RMOD", le32(r.below(7) as u32));
    if r.bool() {
        p("RLMP", b32(r.bool()));
    }
    o
}
pub fn probe(r: &mut Rng) -> (RenderProbeWithGarbage, Vec<u8>) {
    let mut b = [concat(probe_records(r)), endb()].concat();
    b.extend(match r.below(4) {
        0 => vec![],
        1 => [endb(), le32(r.u32())].concat(),
        2 => r.bytes(20),
        _ => rec("RLMP", &le32(1)),
    });
    (RenderProbeWithGarbage::biff_read(&mut BiffReader::new(&b)), b)
}
/// a material with a given refraction tint (a private field, set by reading)
pub fn material(r: &mut Rng) -> (Material, Vec<u8>) {
    let m = random_Material(r);
    let tint = draw::color(r).1;
    let b = material_bytes(&m, &tint);
    (Material::biff_read(&mut BiffReader::new(&b)), b)
}
pub fn material_bytes(m: &Material, tint: &[u8]) -> Vec<u8> {
    let mut c = records_Material(m);
    for x in &mut c {
        if x.0 == "RTNT" {
            x.1 = rec("RTNT", tint);
        }
    }
    [concat(c), endb()].concat()
}
/// the stored tint: private, so taken from what is written
#[allow(non_snake_case)]
pub fn Material_special(t: &str, x: &Material) -> Vec<Chunk> {
    let mut w = BiffWriter::new();
    x.biff_write(&mut w);
    split(w.get_data()).unwrap_or_default().into_iter().filter(|c| c.0 == t).map(|c| (c.0, rec(t, &c.1))).collect()
}
#[allow(non_snake_case)]
pub fn Material_set_special(t: &str, x: &mut Material, r: &mut Rng) -> Vec<u8> {
    let tint = draw::color(r).1;
    let b = material_bytes(x, &tint);
    *x = Material::biff_read(&mut BiffReader::new(&b));
    rec(t, &tint)
}
fn late_fss(x: &GameData) -> bool {
    VERSION.get() < 1080 || x.is_10_8_0_beta1_to_beta4
}
#[allow(non_snake_case)]
pub fn GameData_special(t: &str, x: &GameData) -> Vec<Chunk> {
    let one = |t: &str, b: Vec<u8>| vec![(t.to_string(), rec(t, &b))];
    match (t, x.bg_enable_fss) {
        ("EFSS", Some(v)) if !late_fss(x) => one("EFSS", b32(v)),
        ("EFSS after VSM1", Some(v)) if late_fss(x) => one("EFSS", b32(v)),
        ("MATE", _) => one(t, x.materials_old.iter().flat_map(save_material_bytes).collect()),
        ("PHMA", _) => x.materials_physics_old.iter().flat_map(|v| one(t, v.iter().flat_map(save_physics_bytes).collect())).collect(),
        ("MATR", _) => x.materials.iter().flatten().flat_map(|m| one(t, [concat(records_Material(m)), endb()].concat())).collect(),
        ("RPRB", _) => {
            let w = |p: &RenderProbeWithGarbage| {
                let mut w = BiffWriter::new();
                p.biff_write(&mut w);
                w.get_data().to_vec()
            };
            x.render_probes.iter().flatten().flat_map(|p| one(t, w(p))).collect()
        }
        ("CCUS", _) => one(t, x.custom_colors.iter().flat_map(draw::color_bytes).collect()),
        ("CODE", _) => {
            let b = match x.code.encoding {
                vpin::vpx::model::StringEncoding::Latin1 => latin1(&x.code.string),
                _ => x.code.string.as_bytes().to_vec(),
            };
            vec![(t.to_string(), rec4("CODE", &[le32(b.len() as u32), b].concat()))]
        }
        _ => vec![],
    }
}
pub fn code(r: &mut Rng) -> StringWithEncoding {
    // a script ends at its first NUL
    let mut b: Vec<u8> = match r.below(4) {
        0 => r.latin1(300).chars().map(|c| c as u8).collect(),
        1 => r.unicode(300).into_bytes(),
        2 => b"Sub Table1_KeyDown(ByVal keycode)\r\n'\xe9\xe8\r\nEnd Sub\r\nENDBCODE".to_vec(),
        _ => r.bytes(60),
    };
    b.retain(|c| *c != 0);
    b.into()
}
#[allow(non_snake_case)]
pub fn GameData_set_special(t: &str, x: &mut GameData, r: &mut Rng) -> Vec<u8> {
    match t {
        "EFSS" => {
            let (v, e) = draw::boolean(r);
            x.bg_enable_fss = Some(v);
            rec(t, &e)
        }
        "MATE" => {
            // as many as the count that came before
            x.materials_old = (0..x.materials_size).map(|_| save_material(r)).collect();
            rec(t, &x.materials_old.iter().flat_map(save_material_bytes).collect::<Vec<u8>>())
        }
        "PHMA" => {
            let v: Vec<_> = (0..x.materials_size).map(|_| save_physics(r)).collect();
            let b = rec(t, &v.iter().flat_map(save_physics_bytes).collect::<Vec<u8>>());
            x.materials_physics_old = Some(v);
            b
        }
        "MATR" => {
            let (m, b) = material(r);
            x.materials.get_or_insert_with(Vec::new).push(m);
            rec(t, &b)
        }
        "RPRB" => {
            let (p, b) = probe(r);
            x.render_probes.get_or_insert_with(Vec::new).push(p);
            rec(t, &b)
        }
        "CCUS" => {
            let c: Vec<(Color, Vec<u8>)> = (0..16).map(|_| draw::color(r)).collect();
            x.custom_colors = c.iter().map(|c| c.0).collect::<Vec<_>>().try_into().unwrap();
            rec(t, &c.into_iter().flat_map(|c| c.1).collect::<Vec<u8>>())
        }
        _ => {
            x.code = code(r);
            GameData_special("CODE", x).remove(0).1
        }
    }
}
/// settings the format can carry
pub fn random_settings(r: &mut Rng) -> GameData {
    let mut x = random_GameData(r);
    x.is_10_8_0_beta1_to_beta4 = false;
    if r.bool() {
        x.bg_enable_fss = Some(r.bool());
        x.is_10_8_0_beta1_to_beta4 = VERSION.get() == 1080 && r.bool();
    }
    x.materials_size = r.below(4) as u32;
    draw::PLAIN.with(|p| p.set(true));
    for t in ["MATE", "PHMA", "CCUS", "CODE"] {
        if t != "PHMA" || r.bool() {
            GameData_set_special(t, &mut x, r);
        }
    }
    for t in ["MATR", "RPRB"] {
        for _ in 0..r.below(4) {
            GameData_set_special(t, &mut x, r);
        }
    }
    draw::PLAIN.with(|p| p.set(false));
    x
}
pub fn random_version(r: &mut Rng) -> u32 {
    let v = match r.below(6) {
        0 => 1079,
        1 | 2 => 1080,
        3 => 1081,
        _ => 1000 + r.below(100) as u32,
    };
    VERSION.set(v);
    v
}
