//! Generated by tools/gen_replay.py from vc/schema.json: per element kind, how each record is encoded and which field it holds.
#![allow(unused_variables, unused_mut, non_snake_case, clippy::all)]
use crate::oracle::*;
use crate::{draw, Rng};
use vpin::vpx::gameitem::*;
use vpin::vpx::gameitem::{vertex2d::Vertex2D, vertex3d::Vertex3D};
use crate::draw::Chunk;
pub fn enc_DecalType(v: &vpin::vpx::gameitem::decal::DecalType) -> Vec<u8> {
    match v {
        vpin::vpx::gameitem::decal::DecalType::Text => le32(0),
        vpin::vpx::gameitem::decal::DecalType::Image => le32(1),
    }
}
pub fn draw_DecalType(r: &mut Rng) -> (vpin::vpx::gameitem::decal::DecalType, u32) {
    match r.below(2) {
        0 => (vpin::vpx::gameitem::decal::DecalType::Text, 0),
        _ => (vpin::vpx::gameitem::decal::DecalType::Image, 1),
    }
}
pub fn enc_Fader(v: &vpin::vpx::gameitem::light::Fader) -> Vec<u8> {
    match v {
        vpin::vpx::gameitem::light::Fader::None => le32(0),
        vpin::vpx::gameitem::light::Fader::Linear => le32(1),
        vpin::vpx::gameitem::light::Fader::Incandescent => le32(2),
    }
}
pub fn draw_Fader(r: &mut Rng) -> (vpin::vpx::gameitem::light::Fader, u32) {
    match r.below(3) {
        0 => (vpin::vpx::gameitem::light::Fader::None, 0),
        1 => (vpin::vpx::gameitem::light::Fader::Linear, 1),
        _ => (vpin::vpx::gameitem::light::Fader::Incandescent, 2),
    }
}
pub fn enc_Filter(v: &vpin::vpx::gameitem::flasher::Filter) -> Vec<u8> {
    match v {
        vpin::vpx::gameitem::flasher::Filter::None => le32(0),
        vpin::vpx::gameitem::flasher::Filter::Additive => le32(1),
        vpin::vpx::gameitem::flasher::Filter::Overlay => le32(2),
        vpin::vpx::gameitem::flasher::Filter::Multiply => le32(3),
        vpin::vpx::gameitem::flasher::Filter::Screen => le32(4),
    }
}
pub fn draw_Filter(r: &mut Rng) -> (vpin::vpx::gameitem::flasher::Filter, u32) {
    match r.below(5) {
        0 => (vpin::vpx::gameitem::flasher::Filter::None, 0),
        1 => (vpin::vpx::gameitem::flasher::Filter::Additive, 1),
        2 => (vpin::vpx::gameitem::flasher::Filter::Overlay, 2),
        3 => (vpin::vpx::gameitem::flasher::Filter::Multiply, 3),
        _ => (vpin::vpx::gameitem::flasher::Filter::Screen, 4),
    }
}
pub fn enc_GateType(v: &vpin::vpx::gameitem::gate::GateType) -> Vec<u8> {
    match v {
        vpin::vpx::gameitem::gate::GateType::WireW => le32(1),
        vpin::vpx::gameitem::gate::GateType::WireRectangle => le32(2),
        vpin::vpx::gameitem::gate::GateType::Plate => le32(3),
        vpin::vpx::gameitem::gate::GateType::LongPlate => le32(4),
        vpin::vpx::gameitem::gate::GateType::Unknown(x) => le32(*x as u32),
    }
}
pub fn draw_GateType(r: &mut Rng) -> (vpin::vpx::gameitem::gate::GateType, u32) {
    if r.chance(5) {
        let known = [1, 2, 3, 4];
        let mut n = r.u32();
        while known.contains(&n) { n = n.wrapping_add(0x1001); }
        return (vpin::vpx::gameitem::gate::GateType::Unknown(n), n);
    }
    match r.below(4) {
        0 => (vpin::vpx::gameitem::gate::GateType::WireW, 1),
        1 => (vpin::vpx::gameitem::gate::GateType::WireRectangle, 2),
        2 => (vpin::vpx::gameitem::gate::GateType::Plate, 3),
        _ => (vpin::vpx::gameitem::gate::GateType::LongPlate, 4),
    }
}
pub fn enc_KickerType(v: &vpin::vpx::gameitem::kicker::KickerType) -> Vec<u8> {
    match v {
        vpin::vpx::gameitem::kicker::KickerType::Invisible => le32(0),
        vpin::vpx::gameitem::kicker::KickerType::Hole => le32(1),
        vpin::vpx::gameitem::kicker::KickerType::Cup => le32(2),
        vpin::vpx::gameitem::kicker::KickerType::HoleSimple => le32(3),
        vpin::vpx::gameitem::kicker::KickerType::Williams => le32(4),
        vpin::vpx::gameitem::kicker::KickerType::Gottlieb => le32(5),
        vpin::vpx::gameitem::kicker::KickerType::Cup2 => le32(6),
    }
}
pub fn draw_KickerType(r: &mut Rng) -> (vpin::vpx::gameitem::kicker::KickerType, u32) {
    match r.below(7) {
        0 => (vpin::vpx::gameitem::kicker::KickerType::Invisible, 0),
        1 => (vpin::vpx::gameitem::kicker::KickerType::Hole, 1),
        2 => (vpin::vpx::gameitem::kicker::KickerType::Cup, 2),
        3 => (vpin::vpx::gameitem::kicker::KickerType::HoleSimple, 3),
        4 => (vpin::vpx::gameitem::kicker::KickerType::Williams, 4),
        5 => (vpin::vpx::gameitem::kicker::KickerType::Gottlieb, 5),
        _ => (vpin::vpx::gameitem::kicker::KickerType::Cup2, 6),
    }
}
pub fn enc_MaterialType(v: &vpin::vpx::material::MaterialType) -> Vec<u8> {
    match v {
        vpin::vpx::material::MaterialType::Unknown => le32(-1i32 as u32),
        vpin::vpx::material::MaterialType::Basic => le32(0),
        vpin::vpx::material::MaterialType::Metal => le32(1),
    }
}
pub fn draw_MaterialType(r: &mut Rng) -> (vpin::vpx::material::MaterialType, u32) {
    match r.below(3) {
        0 => (vpin::vpx::material::MaterialType::Unknown, -1i32 as u32),
        1 => (vpin::vpx::material::MaterialType::Basic, 0),
        _ => (vpin::vpx::material::MaterialType::Metal, 1),
    }
}
pub fn enc_PlungerType(v: &vpin::vpx::gameitem::plunger::PlungerType) -> Vec<u8> {
    match v {
        vpin::vpx::gameitem::plunger::PlungerType::Unknown => le32(0),
        vpin::vpx::gameitem::plunger::PlungerType::Modern => le32(1),
        vpin::vpx::gameitem::plunger::PlungerType::Flat => le32(2),
        vpin::vpx::gameitem::plunger::PlungerType::Custom => le32(3),
    }
}
pub fn draw_PlungerType(r: &mut Rng) -> (vpin::vpx::gameitem::plunger::PlungerType, u32) {
    match r.below(4) {
        0 => (vpin::vpx::gameitem::plunger::PlungerType::Unknown, 0),
        1 => (vpin::vpx::gameitem::plunger::PlungerType::Modern, 1),
        2 => (vpin::vpx::gameitem::plunger::PlungerType::Flat, 2),
        _ => (vpin::vpx::gameitem::plunger::PlungerType::Custom, 3),
    }
}
pub fn enc_RampImageAlignment(v: &vpin::vpx::gameitem::ramp_image_alignment::RampImageAlignment) -> Vec<u8> {
    match v {
        vpin::vpx::gameitem::ramp_image_alignment::RampImageAlignment::World => le32(0),
        vpin::vpx::gameitem::ramp_image_alignment::RampImageAlignment::Wrap => le32(1),
        vpin::vpx::gameitem::ramp_image_alignment::RampImageAlignment::Unknown => le32(2),
    }
}
pub fn draw_RampImageAlignment(r: &mut Rng) -> (vpin::vpx::gameitem::ramp_image_alignment::RampImageAlignment, u32) {
    match r.below(3) {
        0 => (vpin::vpx::gameitem::ramp_image_alignment::RampImageAlignment::World, 0),
        1 => (vpin::vpx::gameitem::ramp_image_alignment::RampImageAlignment::Wrap, 1),
        _ => (vpin::vpx::gameitem::ramp_image_alignment::RampImageAlignment::Unknown, 2),
    }
}
pub fn enc_RampType(v: &vpin::vpx::gameitem::ramp::RampType) -> Vec<u8> {
    match v {
        vpin::vpx::gameitem::ramp::RampType::Flat => le32(0),
        vpin::vpx::gameitem::ramp::RampType::FourWire => le32(1),
        vpin::vpx::gameitem::ramp::RampType::TwoWire => le32(2),
        vpin::vpx::gameitem::ramp::RampType::ThreeWireLeft => le32(3),
        vpin::vpx::gameitem::ramp::RampType::ThreeWireRight => le32(4),
        vpin::vpx::gameitem::ramp::RampType::OneWire => le32(5),
    }
}
pub fn draw_RampType(r: &mut Rng) -> (vpin::vpx::gameitem::ramp::RampType, u32) {
    match r.below(6) {
        0 => (vpin::vpx::gameitem::ramp::RampType::Flat, 0),
        1 => (vpin::vpx::gameitem::ramp::RampType::FourWire, 1),
        2 => (vpin::vpx::gameitem::ramp::RampType::TwoWire, 2),
        3 => (vpin::vpx::gameitem::ramp::RampType::ThreeWireLeft, 3),
        4 => (vpin::vpx::gameitem::ramp::RampType::ThreeWireRight, 4),
        _ => (vpin::vpx::gameitem::ramp::RampType::OneWire, 5),
    }
}
pub fn enc_RenderMode(v: &vpin::vpx::gameitem::flasher::RenderMode) -> Vec<u8> {
    match v {
        vpin::vpx::gameitem::flasher::RenderMode::Flasher => le32(0),
        vpin::vpx::gameitem::flasher::RenderMode::DMD => le32(1),
        vpin::vpx::gameitem::flasher::RenderMode::Display => le32(2),
        vpin::vpx::gameitem::flasher::RenderMode::AlphaSeg => le32(3),
        vpin::vpx::gameitem::flasher::RenderMode::ExtRender => le32(4),
    }
}
pub fn draw_RenderMode(r: &mut Rng) -> (vpin::vpx::gameitem::flasher::RenderMode, u32) {
    match r.below(5) {
        0 => (vpin::vpx::gameitem::flasher::RenderMode::Flasher, 0),
        1 => (vpin::vpx::gameitem::flasher::RenderMode::DMD, 1),
        2 => (vpin::vpx::gameitem::flasher::RenderMode::Display, 2),
        3 => (vpin::vpx::gameitem::flasher::RenderMode::AlphaSeg, 3),
        _ => (vpin::vpx::gameitem::flasher::RenderMode::ExtRender, 4),
    }
}
pub fn enc_ShadowMode(v: &vpin::vpx::gameitem::light::ShadowMode) -> Vec<u8> {
    match v {
        vpin::vpx::gameitem::light::ShadowMode::None => le32(0),
        vpin::vpx::gameitem::light::ShadowMode::RaytracedBallShadows => le32(1),
    }
}
pub fn draw_ShadowMode(r: &mut Rng) -> (vpin::vpx::gameitem::light::ShadowMode, u32) {
    match r.below(2) {
        0 => (vpin::vpx::gameitem::light::ShadowMode::None, 0),
        _ => (vpin::vpx::gameitem::light::ShadowMode::RaytracedBallShadows, 1),
    }
}
pub fn enc_SizingType(v: &vpin::vpx::gameitem::decal::SizingType) -> Vec<u8> {
    match v {
        vpin::vpx::gameitem::decal::SizingType::AutoSize => le32(0),
        vpin::vpx::gameitem::decal::SizingType::AutoWidth => le32(1),
        vpin::vpx::gameitem::decal::SizingType::ManualSize => le32(2),
    }
}
pub fn draw_SizingType(r: &mut Rng) -> (vpin::vpx::gameitem::decal::SizingType, u32) {
    match r.below(3) {
        0 => (vpin::vpx::gameitem::decal::SizingType::AutoSize, 0),
        1 => (vpin::vpx::gameitem::decal::SizingType::AutoWidth, 1),
        _ => (vpin::vpx::gameitem::decal::SizingType::ManualSize, 2),
    }
}
pub fn enc_SpaceReference(v: &vpin::vpx::gameitem::partgroup::SpaceReference) -> Vec<u8> {
    match v {
        vpin::vpx::gameitem::partgroup::SpaceReference::Playfield => le32(0),
        vpin::vpx::gameitem::partgroup::SpaceReference::Cabinet => le32(1),
        vpin::vpx::gameitem::partgroup::SpaceReference::CabinetFeet => le32(2),
        vpin::vpx::gameitem::partgroup::SpaceReference::Room => le32(3),
        vpin::vpx::gameitem::partgroup::SpaceReference::Inherit => le32(4),
    }
}
pub fn draw_SpaceReference(r: &mut Rng) -> (vpin::vpx::gameitem::partgroup::SpaceReference, u32) {
    match r.below(5) {
        0 => (vpin::vpx::gameitem::partgroup::SpaceReference::Playfield, 0),
        1 => (vpin::vpx::gameitem::partgroup::SpaceReference::Cabinet, 1),
        2 => (vpin::vpx::gameitem::partgroup::SpaceReference::CabinetFeet, 2),
        3 => (vpin::vpx::gameitem::partgroup::SpaceReference::Room, 3),
        _ => (vpin::vpx::gameitem::partgroup::SpaceReference::Inherit, 4),
    }
}
pub fn enc_TargetType(v: &vpin::vpx::gameitem::hittarget::TargetType) -> Vec<u8> {
    match v {
        vpin::vpx::gameitem::hittarget::TargetType::DropTargetBeveled => le32(1),
        vpin::vpx::gameitem::hittarget::TargetType::DropTargetSimple => le32(2),
        vpin::vpx::gameitem::hittarget::TargetType::HitTargetRound => le32(3),
        vpin::vpx::gameitem::hittarget::TargetType::HitTargetRectangle => le32(4),
        vpin::vpx::gameitem::hittarget::TargetType::HitFatTargetRectangle => le32(5),
        vpin::vpx::gameitem::hittarget::TargetType::HitFatTargetSquare => le32(6),
        vpin::vpx::gameitem::hittarget::TargetType::DropTargetFlatSimple => le32(7),
        vpin::vpx::gameitem::hittarget::TargetType::HitFatTargetSlim => le32(8),
        vpin::vpx::gameitem::hittarget::TargetType::HitTargetSlim => le32(9),
    }
}
pub fn draw_TargetType(r: &mut Rng) -> (vpin::vpx::gameitem::hittarget::TargetType, u32) {
    match r.below(9) {
        0 => (vpin::vpx::gameitem::hittarget::TargetType::DropTargetBeveled, 1),
        1 => (vpin::vpx::gameitem::hittarget::TargetType::DropTargetSimple, 2),
        2 => (vpin::vpx::gameitem::hittarget::TargetType::HitTargetRound, 3),
        3 => (vpin::vpx::gameitem::hittarget::TargetType::HitTargetRectangle, 4),
        4 => (vpin::vpx::gameitem::hittarget::TargetType::HitFatTargetRectangle, 5),
        5 => (vpin::vpx::gameitem::hittarget::TargetType::HitFatTargetSquare, 6),
        6 => (vpin::vpx::gameitem::hittarget::TargetType::DropTargetFlatSimple, 7),
        7 => (vpin::vpx::gameitem::hittarget::TargetType::HitFatTargetSlim, 8),
        _ => (vpin::vpx::gameitem::hittarget::TargetType::HitTargetSlim, 9),
    }
}
pub fn enc_TextAlignment(v: &vpin::vpx::gameitem::textbox::TextAlignment) -> Vec<u8> {
    match v {
        vpin::vpx::gameitem::textbox::TextAlignment::Left => le32(0),
        vpin::vpx::gameitem::textbox::TextAlignment::Center => le32(1),
        vpin::vpx::gameitem::textbox::TextAlignment::Right => le32(2),
    }
}
pub fn draw_TextAlignment(r: &mut Rng) -> (vpin::vpx::gameitem::textbox::TextAlignment, u32) {
    match r.below(3) {
        0 => (vpin::vpx::gameitem::textbox::TextAlignment::Left, 0),
        1 => (vpin::vpx::gameitem::textbox::TextAlignment::Center, 1),
        _ => (vpin::vpx::gameitem::textbox::TextAlignment::Right, 2),
    }
}
pub fn enc_ToneMapper(v: &vpin::vpx::gamedata::ToneMapper) -> Vec<u8> {
    match v {
        vpin::vpx::gamedata::ToneMapper::Reinhard => le32(0),
        vpin::vpx::gamedata::ToneMapper::AgX => le32(1),
        vpin::vpx::gamedata::ToneMapper::Filmic => le32(2),
        vpin::vpx::gamedata::ToneMapper::Neutral => le32(3),
        vpin::vpx::gamedata::ToneMapper::AgXPunchy => le32(4),
        vpin::vpx::gamedata::ToneMapper::Other(x) => le32(*x as u32),
    }
}
pub fn draw_ToneMapper(r: &mut Rng) -> (vpin::vpx::gamedata::ToneMapper, u32) {
    if r.chance(5) {
        let known = [0, 1, 2, 3, 4];
        let mut n = r.u32();
        while known.contains(&n) { n = n.wrapping_add(0x1001); }
        return (vpin::vpx::gamedata::ToneMapper::Other(n), n);
    }
    match r.below(5) {
        0 => (vpin::vpx::gamedata::ToneMapper::Reinhard, 0),
        1 => (vpin::vpx::gamedata::ToneMapper::AgX, 1),
        2 => (vpin::vpx::gamedata::ToneMapper::Filmic, 2),
        3 => (vpin::vpx::gamedata::ToneMapper::Neutral, 3),
        _ => (vpin::vpx::gamedata::ToneMapper::AgXPunchy, 4),
    }
}
pub fn enc_TriggerShape(v: &vpin::vpx::gameitem::trigger::TriggerShape) -> Vec<u8> {
    match v {
        vpin::vpx::gameitem::trigger::TriggerShape::None => le32(0),
        vpin::vpx::gameitem::trigger::TriggerShape::WireA => le32(1),
        vpin::vpx::gameitem::trigger::TriggerShape::Star => le32(2),
        vpin::vpx::gameitem::trigger::TriggerShape::WireB => le32(3),
        vpin::vpx::gameitem::trigger::TriggerShape::Button => le32(4),
        vpin::vpx::gameitem::trigger::TriggerShape::WireC => le32(5),
        vpin::vpx::gameitem::trigger::TriggerShape::WireD => le32(6),
        vpin::vpx::gameitem::trigger::TriggerShape::Inder => le32(7),
    }
}
pub fn draw_TriggerShape(r: &mut Rng) -> (vpin::vpx::gameitem::trigger::TriggerShape, u32) {
    if r.chance(5) {
        let known = [0, 1, 2, 3, 4, 5, 6, 7];
        let mut n = r.u32();
        while known.contains(&n) { n = n.wrapping_add(0x1001); }
        return (vpin::vpx::gameitem::trigger::TriggerShape::WireA, n);
    }
    match r.below(8) {
        0 => (vpin::vpx::gameitem::trigger::TriggerShape::None, 0),
        1 => (vpin::vpx::gameitem::trigger::TriggerShape::WireA, 1),
        2 => (vpin::vpx::gameitem::trigger::TriggerShape::Star, 2),
        3 => (vpin::vpx::gameitem::trigger::TriggerShape::WireB, 3),
        4 => (vpin::vpx::gameitem::trigger::TriggerShape::Button, 4),
        5 => (vpin::vpx::gameitem::trigger::TriggerShape::WireC, 5),
        6 => (vpin::vpx::gameitem::trigger::TriggerShape::WireD, 6),
        _ => (vpin::vpx::gameitem::trigger::TriggerShape::Inder, 7),
    }
}
pub fn enc_ViewLayoutMode(v: &vpin::vpx::gamedata::ViewLayoutMode) -> Vec<u8> {
    match v {
        vpin::vpx::gamedata::ViewLayoutMode::Legacy => le32(0),
        vpin::vpx::gamedata::ViewLayoutMode::Camera => le32(1),
        vpin::vpx::gamedata::ViewLayoutMode::Window => le32(2),
    }
}
pub fn draw_ViewLayoutMode(r: &mut Rng) -> (vpin::vpx::gamedata::ViewLayoutMode, u32) {
    match r.below(3) {
        0 => (vpin::vpx::gamedata::ViewLayoutMode::Legacy, 0),
        1 => (vpin::vpx::gamedata::ViewLayoutMode::Camera, 1),
        _ => (vpin::vpx::gamedata::ViewLayoutMode::Window, 2),
    }
}

// ---------------------------------------------------------------- Ball
pub const BALL_TAGS: &[&str] = &["VCEN", "RADI", "MASS", "FREF", "DCMD", "IMAG", "DIMG", "BISC", "PFRF", "COLR", "SPHR", "REEN", "NAME", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_Ball(x: &ball::Ball) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("VCEN".into(), rec("VCEN", &draw::v3_bytes(&x.pos, false))));
    o.push(("RADI".into(), rec("RADI", &f((x.radius)))));
    o.push(("MASS".into(), rec("MASS", &f((x.mass)))));
    o.push(("FREF".into(), rec("FREF", &b32(x.force_reflection))));
    o.push(("DCMD".into(), rec("DCMD", &b32(x.decal_mode))));
    o.push(("IMAG".into(), rec("IMAG", &str8(&x.image))));
    o.push(("DIMG".into(), rec("DIMG", &str8(&x.image_decal))));
    o.push(("BISC".into(), rec("BISC", &f((x.bulb_intensity_scale)))));
    o.push(("PFRF".into(), rec("PFRF", &f((x.playfield_reflection_strength)))));
    o.push(("COLR".into(), rec("COLR", &draw::color_bytes(&x.color))));
    o.push(("SPHR".into(), rec("SPHR", &b32(x.spherical_mapping))));
    o.push(("REEN".into(), rec("REEN", &b32(x.is_reflection_enabled))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_Ball(t: &str, x: &mut ball::Ball, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "VCEN" => { let v = Vertex3D { x: r.f32(), y: r.f32(), z: r.f32() }; b.extend(draw::v3_bytes(&v, false)); x.pos = v; draw::trail(&mut b, r); }
        "RADI" => { let v = r.f32(); b.extend(f((v))); x.radius = v; draw::trail(&mut b, r); }
        "MASS" => { let v = r.f32(); b.extend(f((v))); x.mass = v; draw::trail(&mut b, r); }
        "FREF" => { let (v, e) = draw::boolean(r); b.extend(e); x.force_reflection = v; draw::trail(&mut b, r); }
        "DCMD" => { let (v, e) = draw::boolean(r); b.extend(e); x.decal_mode = v; draw::trail(&mut b, r); }
        "IMAG" => { let (v, e) = draw::string(r); b.extend(e); x.image = v; draw::trail(&mut b, r); }
        "DIMG" => { let (v, e) = draw::string(r); b.extend(e); x.image_decal = v; draw::trail(&mut b, r); }
        "BISC" => { let v = r.f32(); b.extend(f((v))); x.bulb_intensity_scale = v; draw::trail(&mut b, r); }
        "PFRF" => { let v = r.f32(); b.extend(f((v))); x.playfield_reflection_strength = v; draw::trail(&mut b, r); }
        "COLR" => { let (v, e) = draw::color(r); b.extend(e); x.color = v; draw::trail(&mut b, r); }
        "SPHR" => { let (v, e) = draw::boolean(r); b.extend(e); x.spherical_mapping = v; draw::trail(&mut b, r); }
        "REEN" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_reflection_enabled = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Ball() -> ball::Ball { let mut x = ball::Ball::default(); x }
pub fn random_Ball(r: &mut Rng) -> ball::Ball {
    let mut x = ball::Ball::default();
    let dense = r.below(4);
    for t in ["VCEN", "RADI", "MASS", "FREF", "DCMD", "IMAG", "DIMG", "BISC", "PFRF", "COLR", "SPHR", "REEN", "NAME", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Ball(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_Ball(what: &str, got: &ball::Ball, want: &ball::Ball) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- Bumper
pub const BUMPER_TAGS: &[&str] = &["VCEN", "RADI", "THRS", "FORC", "BSCT", "HISC", "RISP", "ORIN", "RDLI", "MATR", "BAMA", "SKMA", "RIMA", "SURF", "NAME", "CAVI", "BSVS", "RIVS", "SKVS", "HAHE", "COLI", "REEN", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_Bumper(x: &bumper::Bumper) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("VCEN".into(), rec("VCEN", &draw::v2_bytes(&x.center))));
    o.push(("RADI".into(), rec("RADI", &f((x.radius)))));
    o.push(("THRS".into(), rec("THRS", &f((x.threshold)))));
    o.push(("FORC".into(), rec("FORC", &f((x.force)))));
    if let Some(v) = &x.scatter { o.push(("BSCT".into(), rec("BSCT", &f((*v))))); }
    o.push(("HISC".into(), rec("HISC", &f((x.height_scale)))));
    o.push(("RISP".into(), rec("RISP", &f((x.ring_speed)))));
    o.push(("ORIN".into(), rec("ORIN", &f((x.orientation)))));
    if let Some(v) = &x.ring_drop_offset { o.push(("RDLI".into(), rec("RDLI", &f((*v))))); }
    o.push(("MATR".into(), rec("MATR", &str8(&x.cap_material))));
    o.push(("BAMA".into(), rec("BAMA", &str8(&x.base_material))));
    o.push(("SKMA".into(), rec("SKMA", &str8(&x.socket_material))));
    if let Some(v) = &x.ring_material { o.push(("RIMA".into(), rec("RIMA", &str8(&v)))); }
    o.push(("SURF".into(), rec("SURF", &str8(&x.surface))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("CAVI".into(), rec("CAVI", &b32(x.is_cap_visible))));
    o.push(("BSVS".into(), rec("BSVS", &b32(x.is_base_visible))));
    if let Some(v) = &x.is_ring_visible { o.push(("RIVS".into(), rec("RIVS", &b32(*v)))); }
    if let Some(v) = &x.is_socket_visible { o.push(("SKVS".into(), rec("SKVS", &b32(*v)))); }
    if let Some(v) = &x.hit_event { o.push(("HAHE".into(), rec("HAHE", &b32(*v)))); }
    if let Some(v) = &x.is_collidable { o.push(("COLI".into(), rec("COLI", &b32(*v)))); }
    if let Some(v) = &x.is_reflection_enabled { o.push(("REEN".into(), rec("REEN", &b32(*v)))); }
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_Bumper(t: &str, x: &mut bumper::Bumper, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "VCEN" => { let v = Vertex2D { x: r.f32(), y: r.f32() }; b.extend(draw::v2_bytes(&v)); x.center = v; draw::trail(&mut b, r); }
        "RADI" => { let v = r.f32(); b.extend(f((v))); x.radius = v; draw::trail(&mut b, r); }
        "THRS" => { let v = r.f32(); b.extend(f((v))); x.threshold = v; draw::trail(&mut b, r); }
        "FORC" => { let v = r.f32(); b.extend(f((v))); x.force = v; draw::trail(&mut b, r); }
        "BSCT" => { let v = r.f32(); b.extend(f((v))); x.scatter = Some(v); draw::trail(&mut b, r); }
        "HISC" => { let v = r.f32(); b.extend(f((v))); x.height_scale = v; draw::trail(&mut b, r); }
        "RISP" => { let v = r.f32(); b.extend(f((v))); x.ring_speed = v; draw::trail(&mut b, r); }
        "ORIN" => { let v = r.f32(); b.extend(f((v))); x.orientation = v; draw::trail(&mut b, r); }
        "RDLI" => { let v = r.f32(); b.extend(f((v))); x.ring_drop_offset = Some(v); draw::trail(&mut b, r); }
        "MATR" => { let (v, e) = draw::string(r); b.extend(e); x.cap_material = v; draw::trail(&mut b, r); }
        "BAMA" => { let (v, e) = draw::string(r); b.extend(e); x.base_material = v; draw::trail(&mut b, r); }
        "SKMA" => { let (v, e) = draw::string(r); b.extend(e); x.socket_material = v; draw::trail(&mut b, r); }
        "RIMA" => { let (v, e) = draw::string(r); b.extend(e); x.ring_material = Some(v); draw::trail(&mut b, r); }
        "SURF" => { let (v, e) = draw::string(r); b.extend(e); x.surface = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "CAVI" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_cap_visible = v; draw::trail(&mut b, r); }
        "BSVS" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_base_visible = v; draw::trail(&mut b, r); }
        "RIVS" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_ring_visible = Some(v); draw::trail(&mut b, r); }
        "SKVS" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_socket_visible = Some(v); draw::trail(&mut b, r); }
        "HAHE" => { let (v, e) = draw::boolean(r); b.extend(e); x.hit_event = Some(v); draw::trail(&mut b, r); }
        "COLI" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_collidable = Some(v); draw::trail(&mut b, r); }
        "REEN" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_reflection_enabled = Some(v); draw::trail(&mut b, r); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Bumper() -> bumper::Bumper { let mut x = bumper::Bumper::default(); x }
pub fn random_Bumper(r: &mut Rng) -> bumper::Bumper {
    let mut x = bumper::Bumper::default();
    let dense = r.below(4);
    for t in ["VCEN", "RADI", "THRS", "FORC", "BSCT", "HISC", "RISP", "ORIN", "RDLI", "MATR", "BAMA", "SKMA", "RIMA", "SURF", "NAME", "CAVI", "BSVS", "RIVS", "SKVS", "HAHE", "COLI", "REEN", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Bumper(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    if r.chance(3) { x.scatter = None; }
    if r.chance(3) { x.ring_drop_offset = None; }
    if r.chance(3) { x.ring_material = None; }
    if r.chance(3) { x.is_ring_visible = None; }
    if r.chance(3) { x.is_socket_visible = None; }
    if r.chance(3) { x.hit_event = None; }
    if r.chance(3) { x.is_collidable = None; }
    if r.chance(3) { x.is_reflection_enabled = None; }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_Bumper(what: &str, got: &bumper::Bumper, want: &bumper::Bumper) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- Decal
pub const DECAL_TAGS: &[&str] = &["VCEN", "WDTH", "HIGH", "ROTA", "IMAG", "SURF", "NAME", "TEXT", "TYPE", "MATR", "COLR", "SIZE", "VERT", "BGLS", "FONT", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_Decal(x: &decal::Decal) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("VCEN".into(), rec("VCEN", &draw::v2_bytes(&x.center))));
    o.push(("WDTH".into(), rec("WDTH", &f((x.width)))));
    o.push(("HIGH".into(), rec("HIGH", &f((x.height)))));
    o.push(("ROTA".into(), rec("ROTA", &f((x.rotation)))));
    o.push(("IMAG".into(), rec("IMAG", &str8(&x.image))));
    o.push(("SURF".into(), rec("SURF", &str8(&x.surface))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("TEXT".into(), rec("TEXT", &str8(&x.text))));
    o.push(("TYPE".into(), rec("TYPE", &enc_DecalType(&x.decal_type))));
    o.push(("MATR".into(), rec("MATR", &str8(&x.material))));
    o.push(("COLR".into(), rec("COLR", &draw::color_bytes(&x.color))));
    o.push(("SIZE".into(), rec("SIZE", &enc_SizingType(&x.sizing_type))));
    o.push(("VERT".into(), rec("VERT", &b32(x.vertical_text))));
    o.push(("BGLS".into(), rec("BGLS", &b32(x.backglass))));
    o.push(("FONT".into(), rec4("FONT", &draw::font_bytes(&x.font))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_Decal(t: &str, x: &mut decal::Decal, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "VCEN" => { let v = Vertex2D { x: r.f32(), y: r.f32() }; b.extend(draw::v2_bytes(&v)); x.center = v; draw::trail(&mut b, r); }
        "WDTH" => { let v = r.f32(); b.extend(f((v))); x.width = v; draw::trail(&mut b, r); }
        "HIGH" => { let v = r.f32(); b.extend(f((v))); x.height = v; draw::trail(&mut b, r); }
        "ROTA" => { let v = r.f32(); b.extend(f((v))); x.rotation = v; draw::trail(&mut b, r); }
        "IMAG" => { let (v, e) = draw::string(r); b.extend(e); x.image = v; draw::trail(&mut b, r); }
        "SURF" => { let (v, e) = draw::string(r); b.extend(e); x.surface = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "TEXT" => { let (v, e) = draw::string(r); b.extend(e); x.text = v; draw::trail(&mut b, r); }
        "TYPE" => { let (v, e) = draw_DecalType(r); b.extend(le32(e)); x.decal_type = v; draw::trail(&mut b, r); }
        "MATR" => { let (v, e) = draw::string(r); b.extend(e); x.material = v; draw::trail(&mut b, r); }
        "COLR" => { let (v, e) = draw::color(r); b.extend(e); x.color = v; draw::trail(&mut b, r); }
        "SIZE" => { let (v, e) = draw_SizingType(r); b.extend(le32(e)); x.sizing_type = v; draw::trail(&mut b, r); }
        "VERT" => { let (v, e) = draw::boolean(r); b.extend(e); x.vertical_text = v; draw::trail(&mut b, r); }
        "BGLS" => { let (v, e) = draw::boolean(r); b.extend(e); x.backglass = v; draw::trail(&mut b, r); }
        "FONT" => { let (v, e) = draw::font(r); x.font = v; return rec4("FONT", &e); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Decal() -> decal::Decal { let mut x = decal::Decal::default(); x }
pub fn random_Decal(r: &mut Rng) -> decal::Decal {
    let mut x = decal::Decal::default();
    let dense = r.below(4);
    for t in ["VCEN", "WDTH", "HIGH", "ROTA", "IMAG", "SURF", "NAME", "TEXT", "TYPE", "MATR", "COLR", "SIZE", "VERT", "BGLS", "FONT", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Decal(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_Decal(what: &str, got: &decal::Decal, want: &decal::Decal) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    Ok(())
}

// ---------------------------------------------------------------- DragPoint
pub const DRAGPOINT_TAGS: &[&str] = &["VCEN", "POSZ", "SMTH", "SLNG", "ATEX", "TEXC", "LOCK", "LAYR", "LANR", "LVIS"];
pub fn records_DragPoint(x: &dragpoint::DragPoint) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("VCEN".into(), rec("VCEN", &[f((x.x)), f((x.y))].concat())));
    o.push(("POSZ".into(), rec("POSZ", &f((x.z)))));
    o.push(("SMTH".into(), rec("SMTH", &b32(x.smooth))));
    if let Some(v) = &x.is_slingshot { o.push(("SLNG".into(), rec("SLNG", &b32(*v)))); }
    o.push(("ATEX".into(), rec("ATEX", &b32(x.has_auto_texture))));
    o.push(("TEXC".into(), rec("TEXC", &f((x.tex_coord)))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_DragPoint(t: &str, x: &mut dragpoint::DragPoint, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "VCEN" => { let v = r.f32(); b.extend(f((v))); x.x = v;let v = r.f32(); b.extend(f((v))); x.y = v; draw::trail(&mut b, r); }
        "POSZ" => { let v = r.f32(); b.extend(f((v))); x.z = v; draw::trail(&mut b, r); }
        "SMTH" => { let (v, e) = draw::boolean(r); b.extend(e); x.smooth = v; draw::trail(&mut b, r); }
        "SLNG" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_slingshot = Some(v); draw::trail(&mut b, r); }
        "ATEX" => { let (v, e) = draw::boolean(r); b.extend(e); x.has_auto_texture = v; draw::trail(&mut b, r); }
        "TEXC" => { let v = r.f32(); b.extend(f((v))); x.tex_coord = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_DragPoint() -> dragpoint::DragPoint { let mut x = dragpoint::DragPoint::default(); x }
pub fn random_DragPoint(r: &mut Rng) -> dragpoint::DragPoint {
    let mut x = dragpoint::DragPoint::default();
    let dense = r.below(4);
    for t in ["VCEN", "POSZ", "SMTH", "SLNG", "ATEX", "TEXC", "LOCK", "LAYR", "LANR", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_DragPoint(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    if r.chance(3) { x.is_slingshot = None; }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    x
}
pub fn same_DragPoint(what: &str, got: &dragpoint::DragPoint, want: &dragpoint::DragPoint) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- Flasher
pub const FLASHER_TAGS: &[&str] = &["FHEI", "FLAX", "FLAY", "FROX", "FROY", "FROZ", "COLR", "NAME", "IMAG", "IMAB", "FALP", "MOVA", "FVIS", "DSPT", "ADDB", "IDMD", "RDMD", "RSTL", "GRGH", "GAMB", "GTOP", "GBOT", "GLFT", "GRHT", "LINK", "FLDB", "ALGN", "FILT", "FIAM", "LMAP", "BGLS", "DPNT", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_Flasher(x: &flasher::Flasher) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("FHEI".into(), rec("FHEI", &f((x.height)))));
    o.push(("FLAX".into(), rec("FLAX", &f((x.pos_x)))));
    o.push(("FLAY".into(), rec("FLAY", &f((x.pos_y)))));
    o.push(("FROX".into(), rec("FROX", &f((x.rot_x)))));
    o.push(("FROY".into(), rec("FROY", &f((x.rot_y)))));
    o.push(("FROZ".into(), rec("FROZ", &f((x.rot_z)))));
    o.push(("COLR".into(), rec("COLR", &draw::color_bytes(&x.color))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("IMAG".into(), rec("IMAG", &str8(&x.image_a))));
    o.push(("IMAB".into(), rec("IMAB", &str8(&x.image_b))));
    o.push(("FALP".into(), rec("FALP", &le32((x.alpha) as u32))));
    o.push(("MOVA".into(), rec("MOVA", &f((x.modulate_vs_add)))));
    o.push(("FVIS".into(), rec("FVIS", &b32(x.is_visible))));
    o.push(("DSPT".into(), rec("DSPT", &b32(x.display_texture))));
    o.push(("ADDB".into(), rec("ADDB", &b32(x.add_blend))));
    if let Some(v) = &x.is_dmd { o.push(("IDMD".into(), rec("IDMD", &b32(*v)))); }
    if let Some(v) = &x.render_mode { o.push(("RDMD".into(), rec("RDMD", &enc_RenderMode(&v)))); }
    if let Some(v) = &x.render_style { o.push(("RSTL".into(), rec("RSTL", &le32((*v))))); }
    if let Some(v) = &x.glass_roughness { o.push(("GRGH".into(), rec("GRGH", &f((*v))))); }
    if let Some(v) = &x.glass_ambient { o.push(("GAMB".into(), rec("GAMB", &le32((*v))))); }
    if let Some(v) = &x.glass_pad_top { o.push(("GTOP".into(), rec("GTOP", &f((*v))))); }
    if let Some(v) = &x.glass_pad_bottom { o.push(("GBOT".into(), rec("GBOT", &f((*v))))); }
    if let Some(v) = &x.glass_pad_left { o.push(("GLFT".into(), rec("GLFT", &f((*v))))); }
    if let Some(v) = &x.glass_pad_right { o.push(("GRHT".into(), rec("GRHT", &f((*v))))); }
    if let Some(v) = &x.image_src_link { o.push(("LINK".into(), rec("LINK", &str8(&v)))); }
    o.push(("FLDB".into(), rec("FLDB", &f((x.depth_bias)))));
    o.push(("ALGN".into(), rec("ALGN", &enc_RampImageAlignment(&x.image_alignment))));
    o.push(("FILT".into(), rec("FILT", &enc_Filter(&x.filter))));
    o.push(("FIAM".into(), rec("FIAM", &le32((x.filter_amount)))));
    if let Some(v) = &x.light_map { o.push(("LMAP".into(), rec("LMAP", &str8(&v)))); }
    if let Some(v) = &x.backglass { o.push(("BGLS".into(), rec("BGLS", &b32(*v)))); }
    for p in &x.drag_points { o.push(("DPNT".into(), [rec("DPNT", &[]), draw::concat(records_DragPoint(p)), endb()].concat())); }
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_Flasher(t: &str, x: &mut flasher::Flasher, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "FHEI" => { let v = r.f32(); b.extend(f((v))); x.height = v; draw::trail(&mut b, r); }
        "FLAX" => { let v = r.f32(); b.extend(f((v))); x.pos_x = v; draw::trail(&mut b, r); }
        "FLAY" => { let v = r.f32(); b.extend(f((v))); x.pos_y = v; draw::trail(&mut b, r); }
        "FROX" => { let v = r.f32(); b.extend(f((v))); x.rot_x = v; draw::trail(&mut b, r); }
        "FROY" => { let v = r.f32(); b.extend(f((v))); x.rot_y = v; draw::trail(&mut b, r); }
        "FROZ" => { let v = r.f32(); b.extend(f((v))); x.rot_z = v; draw::trail(&mut b, r); }
        "COLR" => { let (v, e) = draw::color(r); b.extend(e); x.color = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "IMAG" => { let (v, e) = draw::string(r); b.extend(e); x.image_a = v; draw::trail(&mut b, r); }
        "IMAB" => { let (v, e) = draw::string(r); b.extend(e); x.image_b = v; draw::trail(&mut b, r); }
        "FALP" => { let v = r.i32(); b.extend(le32((v) as u32)); x.alpha = v; draw::trail(&mut b, r); }
        "MOVA" => { let v = r.f32(); b.extend(f((v))); x.modulate_vs_add = v; draw::trail(&mut b, r); }
        "FVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_visible = v; draw::trail(&mut b, r); }
        "DSPT" => { let (v, e) = draw::boolean(r); b.extend(e); x.display_texture = v; draw::trail(&mut b, r); }
        "ADDB" => { let (v, e) = draw::boolean(r); b.extend(e); x.add_blend = v; draw::trail(&mut b, r); }
        "IDMD" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_dmd = Some(v); draw::trail(&mut b, r); }
        "RDMD" => { let (v, e) = draw_RenderMode(r); b.extend(le32(e)); x.render_mode = Some(v); draw::trail(&mut b, r); }
        "RSTL" => { let v = r.u32(); b.extend(le32((v))); x.render_style = Some(v); draw::trail(&mut b, r); }
        "GRGH" => { let v = r.f32(); b.extend(f((v))); x.glass_roughness = Some(v); draw::trail(&mut b, r); }
        "GAMB" => { let v = r.u32(); b.extend(le32((v))); x.glass_ambient = Some(v); draw::trail(&mut b, r); }
        "GTOP" => { let v = r.f32(); b.extend(f((v))); x.glass_pad_top = Some(v); draw::trail(&mut b, r); }
        "GBOT" => { let v = r.f32(); b.extend(f((v))); x.glass_pad_bottom = Some(v); draw::trail(&mut b, r); }
        "GLFT" => { let v = r.f32(); b.extend(f((v))); x.glass_pad_left = Some(v); draw::trail(&mut b, r); }
        "GRHT" => { let v = r.f32(); b.extend(f((v))); x.glass_pad_right = Some(v); draw::trail(&mut b, r); }
        "LINK" => { let (v, e) = draw::string(r); b.extend(e); x.image_src_link = Some(v); draw::trail(&mut b, r); }
        "FLDB" => { let v = r.f32(); b.extend(f((v))); x.depth_bias = v; draw::trail(&mut b, r); }
        "ALGN" => { let (v, e) = draw_RampImageAlignment(r); b.extend(le32(e)); x.image_alignment = v; draw::trail(&mut b, r); }
        "FILT" => { let (v, e) = draw_Filter(r); b.extend(le32(e)); x.filter = v; draw::trail(&mut b, r); }
        "FIAM" => { let v = r.u32(); b.extend(le32((v))); x.filter_amount = v; draw::trail(&mut b, r); }
        "LMAP" => { let (v, e) = draw::string(r); b.extend(e); x.light_map = Some(v); draw::trail(&mut b, r); }
        "BGLS" => { let (v, e) = draw::boolean(r); b.extend(e); x.backglass = Some(v); draw::trail(&mut b, r); }
        "DPNT" => { let (p, e) = draw::drag_point(r); x.drag_points.push(p); return [rec("DPNT", &[]), e].concat(); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Flasher() -> flasher::Flasher { let mut x = flasher::Flasher::default(); x }
pub fn random_Flasher(r: &mut Rng) -> flasher::Flasher {
    let mut x = flasher::Flasher::default();
    let dense = r.below(4);
    for t in ["FHEI", "FLAX", "FLAY", "FROX", "FROY", "FROZ", "COLR", "NAME", "IMAG", "IMAB", "FALP", "MOVA", "FVIS", "DSPT", "ADDB", "IDMD", "RDMD", "RSTL", "GRGH", "GAMB", "GTOP", "GBOT", "GLFT", "GRHT", "LINK", "FLDB", "ALGN", "FILT", "FIAM", "LMAP", "BGLS", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Flasher(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    for _ in 0..r.below(4) { x.drag_points.push(random_DragPoint(r)); }
    if r.chance(3) { x.is_dmd = None; }
    if r.chance(3) { x.render_mode = None; }
    if r.chance(3) { x.render_style = None; }
    if r.chance(3) { x.glass_roughness = None; }
    if r.chance(3) { x.glass_ambient = None; }
    if r.chance(3) { x.glass_pad_top = None; }
    if r.chance(3) { x.glass_pad_bottom = None; }
    if r.chance(3) { x.glass_pad_left = None; }
    if r.chance(3) { x.glass_pad_right = None; }
    if r.chance(3) { x.image_src_link = None; }
    if r.chance(3) { x.light_map = None; }
    if r.chance(3) { x.backglass = None; }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_Flasher(what: &str, got: &flasher::Flasher, want: &flasher::Flasher) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- Flipper
pub const FLIPPER_TAGS: &[&str] = &["VCEN", "BASR", "ENDR", "FLPR", "FRTN", "ANGS", "ANGE", "OVRP", "FORC", "SURF", "MATR", "NAME", "RUMA", "RTHK", "RTHF", "RHGT", "RHGF", "RWDT", "RWDF", "STRG", "ELAS", "ELFO", "FRIC", "RPUP", "SCTR", "TODA", "TDAA", "VSBL", "ENBL", "FRMN", "FHGT", "IMAG", "REEN", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_Flipper(x: &flipper::Flipper) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("VCEN".into(), rec("VCEN", &draw::v2_bytes(&x.center))));
    o.push(("BASR".into(), rec("BASR", &f((x.base_radius)))));
    o.push(("ENDR".into(), rec("ENDR", &f((x.end_radius)))));
    o.push(("FLPR".into(), rec("FLPR", &f((x.flipper_radius_max)))));
    o.push(("FRTN".into(), rec("FRTN", &f((x.return_)))));
    o.push(("ANGS".into(), rec("ANGS", &f((x.start_angle)))));
    o.push(("ANGE".into(), rec("ANGE", &f((x.end_angle)))));
    o.push(("OVRP".into(), rec("OVRP", &le32((x.override_physics)))));
    o.push(("FORC".into(), rec("FORC", &f((x.mass)))));
    o.push(("SURF".into(), rec("SURF", &str8(&x.surface))));
    o.push(("MATR".into(), rec("MATR", &str8(&x.material))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("RUMA".into(), rec("RUMA", &str8(&x.rubber_material))));
    o.push(("RTHK".into(), rec("RTHK", &le32((x.rubber_thickness_int)))));
    if let Some(v) = &x.rubber_thickness { o.push(("RTHF".into(), rec("RTHF", &f((*v))))); }
    o.push(("RHGT".into(), rec("RHGT", &le32((x.rubber_height_int)))));
    if let Some(v) = &x.rubber_height { o.push(("RHGF".into(), rec("RHGF", &f((*v))))); }
    o.push(("RWDT".into(), rec("RWDT", &le32((x.rubber_width_int)))));
    if let Some(v) = &x.rubber_width { o.push(("RWDF".into(), rec("RWDF", &f((*v))))); }
    o.push(("STRG".into(), rec("STRG", &f((x.strength)))));
    o.push(("ELAS".into(), rec("ELAS", &f((x.elasticity)))));
    o.push(("ELFO".into(), rec("ELFO", &f((x.elasticity_falloff)))));
    o.push(("FRIC".into(), rec("FRIC", &f((x.friction)))));
    o.push(("RPUP".into(), rec("RPUP", &f((x.ramp_up)))));
    if let Some(v) = &x.scatter { o.push(("SCTR".into(), rec("SCTR", &f((*v))))); }
    if let Some(v) = &x.torque_damping { o.push(("TODA".into(), rec("TODA", &f((*v))))); }
    if let Some(v) = &x.torque_damping_angle { o.push(("TDAA".into(), rec("TDAA", &f((*v))))); }
    o.push(("VSBL".into(), rec("VSBL", &b32(x.is_visible))));
    o.push(("ENBL".into(), rec("ENBL", &b32(x.is_enabled))));
    o.push(("FRMN".into(), rec("FRMN", &f((x.flipper_radius_min)))));
    o.push(("FHGT".into(), rec("FHGT", &f((x.height)))));
    if let Some(v) = &x.image { o.push(("IMAG".into(), rec("IMAG", &str8(&v)))); }
    if let Some(v) = &x.is_reflection_enabled { o.push(("REEN".into(), rec("REEN", &b32(*v)))); }
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_Flipper(t: &str, x: &mut flipper::Flipper, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "VCEN" => { let v = Vertex2D { x: r.f32(), y: r.f32() }; b.extend(draw::v2_bytes(&v)); x.center = v; draw::trail(&mut b, r); }
        "BASR" => { let v = r.f32(); b.extend(f((v))); x.base_radius = v; draw::trail(&mut b, r); }
        "ENDR" => { let v = r.f32(); b.extend(f((v))); x.end_radius = v; draw::trail(&mut b, r); }
        "FLPR" => { let v = r.f32(); b.extend(f((v))); x.flipper_radius_max = v; draw::trail(&mut b, r); }
        "FRTN" => { let v = r.f32(); b.extend(f((v))); x.return_ = v; draw::trail(&mut b, r); }
        "ANGS" => { let v = r.f32(); b.extend(f((v))); x.start_angle = v; draw::trail(&mut b, r); }
        "ANGE" => { let v = r.f32(); b.extend(f((v))); x.end_angle = v; draw::trail(&mut b, r); }
        "OVRP" => { let v = r.u32(); b.extend(le32((v))); x.override_physics = v; draw::trail(&mut b, r); }
        "FORC" => { let v = r.f32(); b.extend(f((v))); x.mass = v; draw::trail(&mut b, r); }
        "SURF" => { let (v, e) = draw::string(r); b.extend(e); x.surface = v; draw::trail(&mut b, r); }
        "MATR" => { let (v, e) = draw::string(r); b.extend(e); x.material = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "RUMA" => { let (v, e) = draw::string(r); b.extend(e); x.rubber_material = v; draw::trail(&mut b, r); }
        "RTHK" => { let v = r.u32(); b.extend(le32((v))); x.rubber_thickness_int = v; draw::trail(&mut b, r); }
        "RTHF" => { let v = r.f32(); b.extend(f((v))); x.rubber_thickness = Some(v); draw::trail(&mut b, r); }
        "RHGT" => { let v = r.u32(); b.extend(le32((v))); x.rubber_height_int = v; draw::trail(&mut b, r); }
        "RHGF" => { let v = r.f32(); b.extend(f((v))); x.rubber_height = Some(v); draw::trail(&mut b, r); }
        "RWDT" => { let v = r.u32(); b.extend(le32((v))); x.rubber_width_int = v; draw::trail(&mut b, r); }
        "RWDF" => { let v = r.f32(); b.extend(f((v))); x.rubber_width = Some(v); draw::trail(&mut b, r); }
        "STRG" => { let v = r.f32(); b.extend(f((v))); x.strength = v; draw::trail(&mut b, r); }
        "ELAS" => { let v = r.f32(); b.extend(f((v))); x.elasticity = v; draw::trail(&mut b, r); }
        "ELFO" => { let v = r.f32(); b.extend(f((v))); x.elasticity_falloff = v; draw::trail(&mut b, r); }
        "FRIC" => { let v = r.f32(); b.extend(f((v))); x.friction = v; draw::trail(&mut b, r); }
        "RPUP" => { let v = r.f32(); b.extend(f((v))); x.ramp_up = v; draw::trail(&mut b, r); }
        "SCTR" => { let v = r.f32(); b.extend(f((v))); x.scatter = Some(v); draw::trail(&mut b, r); }
        "TODA" => { let v = r.f32(); b.extend(f((v))); x.torque_damping = Some(v); draw::trail(&mut b, r); }
        "TDAA" => { let v = r.f32(); b.extend(f((v))); x.torque_damping_angle = Some(v); draw::trail(&mut b, r); }
        "VSBL" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_visible = v; draw::trail(&mut b, r); }
        "ENBL" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_enabled = v; draw::trail(&mut b, r); }
        "FRMN" => { let v = r.f32(); b.extend(f((v))); x.flipper_radius_min = v; draw::trail(&mut b, r); }
        "FHGT" => { let v = r.f32(); b.extend(f((v))); x.height = v; draw::trail(&mut b, r); }
        "IMAG" => { let (v, e) = draw::string(r); b.extend(e); x.image = Some(v); draw::trail(&mut b, r); }
        "REEN" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_reflection_enabled = Some(v); draw::trail(&mut b, r); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Flipper() -> flipper::Flipper { let mut x = flipper::Flipper::default(); x }
pub fn random_Flipper(r: &mut Rng) -> flipper::Flipper {
    let mut x = flipper::Flipper::default();
    let dense = r.below(4);
    for t in ["VCEN", "BASR", "ENDR", "FLPR", "FRTN", "ANGS", "ANGE", "OVRP", "FORC", "SURF", "MATR", "NAME", "RUMA", "RTHK", "RTHF", "RHGT", "RHGF", "RWDT", "RWDF", "STRG", "ELAS", "ELFO", "FRIC", "RPUP", "SCTR", "TODA", "TDAA", "VSBL", "ENBL", "FRMN", "FHGT", "IMAG", "REEN", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Flipper(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    if r.chance(3) { x.rubber_thickness = None; }
    if r.chance(3) { x.rubber_height = None; }
    if r.chance(3) { x.rubber_width = None; }
    if r.chance(3) { x.scatter = None; }
    if r.chance(3) { x.torque_damping = None; }
    if r.chance(3) { x.torque_damping_angle = None; }
    if r.chance(3) { x.image = None; }
    if r.chance(3) { x.is_reflection_enabled = None; }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_Flipper(what: &str, got: &flipper::Flipper, want: &flipper::Flipper) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- Gate
pub const GATE_TAGS: &[&str] = &["VCEN", "LGTH", "HGTH", "ROTA", "MATR", "GSUP", "GCOL", "IMGF", "IMGB", "SURF", "ELAS", "GAMA", "GAMI", "GFRC", "AFRC", "GGFC", "GVSB", "NAME", "TWWA", "REEN", "GATY", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_Gate(x: &gate::Gate) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("VCEN".into(), rec("VCEN", &draw::v2_bytes(&x.center))));
    o.push(("LGTH".into(), rec("LGTH", &f((x.length)))));
    o.push(("HGTH".into(), rec("HGTH", &f((x.height)))));
    o.push(("ROTA".into(), rec("ROTA", &f((x.rotation)))));
    o.push(("MATR".into(), rec("MATR", &str8(&x.material))));
    o.push(("GSUP".into(), rec("GSUP", &b32(x.show_bracket))));
    o.push(("GCOL".into(), rec("GCOL", &b32(x.is_collidable))));
    if let Some(v) = &x.imgf { o.push(("IMGF".into(), rec("IMGF", &str8(&v)))); }
    if let Some(v) = &x.imgb { o.push(("IMGB".into(), rec("IMGB", &str8(&v)))); }
    o.push(("SURF".into(), rec("SURF", &str8(&x.surface))));
    o.push(("ELAS".into(), rec("ELAS", &f((x.elasticity)))));
    o.push(("GAMA".into(), rec("GAMA", &f((x.angle_max)))));
    o.push(("GAMI".into(), rec("GAMI", &f((x.angle_min)))));
    o.push(("GFRC".into(), rec("GFRC", &f((x.friction)))));
    if let Some(v) = &x.damping { o.push(("AFRC".into(), rec("AFRC", &f((*v))))); }
    if let Some(v) = &x.gravity_factor { o.push(("GGFC".into(), rec("GGFC", &f((*v))))); }
    o.push(("GVSB".into(), rec("GVSB", &b32(x.is_visible))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("TWWA".into(), rec("TWWA", &b32(x.two_way))));
    if let Some(v) = &x.is_reflection_enabled { o.push(("REEN".into(), rec("REEN", &b32(*v)))); }
    if let Some(v) = &x.gate_type { o.push(("GATY".into(), rec("GATY", &enc_GateType(&v)))); }
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_Gate(t: &str, x: &mut gate::Gate, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "VCEN" => { let v = Vertex2D { x: r.f32(), y: r.f32() }; b.extend(draw::v2_bytes(&v)); x.center = v; draw::trail(&mut b, r); }
        "LGTH" => { let v = r.f32(); b.extend(f((v))); x.length = v; draw::trail(&mut b, r); }
        "HGTH" => { let v = r.f32(); b.extend(f((v))); x.height = v; draw::trail(&mut b, r); }
        "ROTA" => { let v = r.f32(); b.extend(f((v))); x.rotation = v; draw::trail(&mut b, r); }
        "MATR" => { let (v, e) = draw::string(r); b.extend(e); x.material = v; draw::trail(&mut b, r); }
        "GSUP" => { let (v, e) = draw::boolean(r); b.extend(e); x.show_bracket = v; draw::trail(&mut b, r); }
        "GCOL" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_collidable = v; draw::trail(&mut b, r); }
        "IMGF" => { let (v, e) = draw::string(r); b.extend(e); x.imgf = Some(v); draw::trail(&mut b, r); }
        "IMGB" => { let (v, e) = draw::string(r); b.extend(e); x.imgb = Some(v); draw::trail(&mut b, r); }
        "SURF" => { let (v, e) = draw::string(r); b.extend(e); x.surface = v; draw::trail(&mut b, r); }
        "ELAS" => { let v = r.f32(); b.extend(f((v))); x.elasticity = v; draw::trail(&mut b, r); }
        "GAMA" => { let v = r.f32(); b.extend(f((v))); x.angle_max = v; draw::trail(&mut b, r); }
        "GAMI" => { let v = r.f32(); b.extend(f((v))); x.angle_min = v; draw::trail(&mut b, r); }
        "GFRC" => { let v = r.f32(); b.extend(f((v))); x.friction = v; draw::trail(&mut b, r); }
        "AFRC" => { let v = r.f32(); b.extend(f((v))); x.damping = Some(v); draw::trail(&mut b, r); }
        "GGFC" => { let v = r.f32(); b.extend(f((v))); x.gravity_factor = Some(v); draw::trail(&mut b, r); }
        "GVSB" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_visible = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "TWWA" => { let (v, e) = draw::boolean(r); b.extend(e); x.two_way = v; draw::trail(&mut b, r); }
        "REEN" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_reflection_enabled = Some(v); draw::trail(&mut b, r); }
        "GATY" => { let (v, e) = draw_GateType(r); b.extend(le32(e)); x.gate_type = Some(v); draw::trail(&mut b, r); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Gate() -> gate::Gate { let mut x = gate::Gate::default(); x }
pub fn random_Gate(r: &mut Rng) -> gate::Gate {
    let mut x = gate::Gate::default();
    let dense = r.below(4);
    for t in ["VCEN", "LGTH", "HGTH", "ROTA", "MATR", "GSUP", "GCOL", "IMGF", "IMGB", "SURF", "ELAS", "GAMA", "GAMI", "GFRC", "AFRC", "GGFC", "GVSB", "NAME", "TWWA", "REEN", "GATY", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Gate(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    if r.chance(3) { x.imgf = None; }
    if r.chance(3) { x.imgb = None; }
    if r.chance(3) { x.damping = None; }
    if r.chance(3) { x.gravity_factor = None; }
    if r.chance(3) { x.is_reflection_enabled = None; }
    if r.chance(3) { x.gate_type = None; }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_Gate(what: &str, got: &gate::Gate, want: &gate::Gate) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- HitTarget
pub const HITTARGET_TAGS: &[&str] = &["VPOS", "VSIZ", "ROTZ", "IMAG", "TRTY", "NAME", "MATR", "TVIS", "LEMO", "HTEV", "THRS", "ELAS", "ELFO", "RFCT", "RSCT", "CLDR", "DILI", "DILT", "DILB", "REEN", "PIDB", "ISDR", "DRSP", "RADE", "MAPH", "OVPH", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_HitTarget(x: &hittarget::HitTarget) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("VPOS".into(), rec("VPOS", &draw::v3_bytes(&x.position, true))));
    o.push(("VSIZ".into(), rec("VSIZ", &draw::v3_bytes(&x.size, true))));
    o.push(("ROTZ".into(), rec("ROTZ", &f((x.rot_z)))));
    o.push(("IMAG".into(), rec("IMAG", &str8(&x.image))));
    o.push(("TRTY".into(), rec("TRTY", &enc_TargetType(&x.target_type))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("MATR".into(), rec("MATR", &str8(&x.material))));
    o.push(("TVIS".into(), rec("TVIS", &b32(x.is_visible))));
    o.push(("LEMO".into(), rec("LEMO", &b32(x.is_legacy))));
    o.push(("HTEV".into(), rec("HTEV", &b32(x.use_hit_event))));
    o.push(("THRS".into(), rec("THRS", &f((x.threshold)))));
    o.push(("ELAS".into(), rec("ELAS", &f((x.elasticity)))));
    o.push(("ELFO".into(), rec("ELFO", &f((x.elasticity_falloff)))));
    o.push(("RFCT".into(), rec("RFCT", &f((x.friction)))));
    o.push(("RSCT".into(), rec("RSCT", &f((x.scatter)))));
    o.push(("CLDR".into(), rec("CLDR", &b32(x.is_collidable))));
    if let Some(v) = &x.disable_lighting_top_old { o.push(("DILI".into(), rec("DILI", &draw::q8_bytes(*v)))); }
    if let Some(v) = &x.disable_lighting_top { o.push(("DILT".into(), rec("DILT", &f((*v))))); }
    if let Some(v) = &x.disable_lighting_below { o.push(("DILB".into(), rec("DILB", &f((*v))))); }
    o.push(("REEN".into(), rec("REEN", &b32(x.is_reflection_enabled))));
    o.push(("PIDB".into(), rec("PIDB", &f((x.depth_bias)))));
    o.push(("ISDR".into(), rec("ISDR", &b32(x.is_dropped))));
    o.push(("DRSP".into(), rec("DRSP", &f((x.drop_speed)))));
    if let Some(v) = &x.raise_delay { o.push(("RADE".into(), rec("RADE", &le32((*v))))); }
    if let Some(v) = &x.physics_material { o.push(("MAPH".into(), rec("MAPH", &str8(&v)))); }
    if let Some(v) = &x.overwrite_physics { o.push(("OVPH".into(), rec("OVPH", &b32(*v)))); }
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_HitTarget(t: &str, x: &mut hittarget::HitTarget, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "VPOS" => { let v = Vertex3D { x: r.f32(), y: r.f32(), z: r.f32() }; b.extend(draw::v3_bytes_pad(&v, r)); x.position = v; draw::trail(&mut b, r); }
        "VSIZ" => { let v = Vertex3D { x: r.f32(), y: r.f32(), z: r.f32() }; b.extend(draw::v3_bytes_pad(&v, r)); x.size = v; draw::trail(&mut b, r); }
        "ROTZ" => { let v = r.f32(); b.extend(f((v))); x.rot_z = v; draw::trail(&mut b, r); }
        "IMAG" => { let (v, e) = draw::string(r); b.extend(e); x.image = v; draw::trail(&mut b, r); }
        "TRTY" => { let (v, e) = draw_TargetType(r); b.extend(le32(e)); x.target_type = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "MATR" => { let (v, e) = draw::string(r); b.extend(e); x.material = v; draw::trail(&mut b, r); }
        "TVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_visible = v; draw::trail(&mut b, r); }
        "LEMO" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_legacy = v; draw::trail(&mut b, r); }
        "HTEV" => { let (v, e) = draw::boolean(r); b.extend(e); x.use_hit_event = v; draw::trail(&mut b, r); }
        "THRS" => { let v = r.f32(); b.extend(f((v))); x.threshold = v; draw::trail(&mut b, r); }
        "ELAS" => { let v = r.f32(); b.extend(f((v))); x.elasticity = v; draw::trail(&mut b, r); }
        "ELFO" => { let v = r.f32(); b.extend(f((v))); x.elasticity_falloff = v; draw::trail(&mut b, r); }
        "RFCT" => { let v = r.f32(); b.extend(f((v))); x.friction = v; draw::trail(&mut b, r); }
        "RSCT" => { let v = r.f32(); b.extend(f((v))); x.scatter = v; draw::trail(&mut b, r); }
        "CLDR" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_collidable = v; draw::trail(&mut b, r); }
        "DILI" => { let (v, e) = draw::q8(r); b.extend(e); x.disable_lighting_top_old = Some(v); draw::trail(&mut b, r); }
        "DILT" => { let v = r.f32(); b.extend(f((v))); x.disable_lighting_top = Some(v); draw::trail(&mut b, r); }
        "DILB" => { let v = r.f32(); b.extend(f((v))); x.disable_lighting_below = Some(v); draw::trail(&mut b, r); }
        "REEN" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_reflection_enabled = v; draw::trail(&mut b, r); }
        "PIDB" => { let v = r.f32(); b.extend(f((v))); x.depth_bias = v; draw::trail(&mut b, r); }
        "ISDR" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_dropped = v; draw::trail(&mut b, r); }
        "DRSP" => { let v = r.f32(); b.extend(f((v))); x.drop_speed = v; draw::trail(&mut b, r); }
        "RADE" => { let v = r.u32(); b.extend(le32((v))); x.raise_delay = Some(v); draw::trail(&mut b, r); }
        "MAPH" => { let (v, e) = draw::string(r); b.extend(e); x.physics_material = Some(v); draw::trail(&mut b, r); }
        "OVPH" => { let (v, e) = draw::boolean(r); b.extend(e); x.overwrite_physics = Some(v); draw::trail(&mut b, r); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_HitTarget() -> hittarget::HitTarget { let mut x = hittarget::HitTarget::default(); x }
pub fn random_HitTarget(r: &mut Rng) -> hittarget::HitTarget {
    let mut x = hittarget::HitTarget::default();
    let dense = r.below(4);
    for t in ["VPOS", "VSIZ", "ROTZ", "IMAG", "TRTY", "NAME", "MATR", "TVIS", "LEMO", "HTEV", "THRS", "ELAS", "ELFO", "RFCT", "RSCT", "CLDR", "DILI", "DILT", "DILB", "REEN", "PIDB", "ISDR", "DRSP", "RADE", "MAPH", "OVPH", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_HitTarget(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    if r.chance(3) { x.disable_lighting_top_old = None; }
    if r.chance(3) { x.disable_lighting_top = None; }
    if r.chance(3) { x.disable_lighting_below = None; }
    if r.chance(3) { x.raise_delay = None; }
    if r.chance(3) { x.physics_material = None; }
    if r.chance(3) { x.overwrite_physics = None; }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_HitTarget(what: &str, got: &hittarget::HitTarget, want: &hittarget::HitTarget) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- Kicker
pub const KICKER_TAGS: &[&str] = &["VCEN", "RADI", "MATR", "SURF", "EBLD", "NAME", "TYPE", "KSCT", "KHAC", "KHHI", "KORI", "FATH", "LEMO", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_Kicker(x: &kicker::Kicker) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("VCEN".into(), rec("VCEN", &draw::v2_bytes(&x.center))));
    o.push(("RADI".into(), rec("RADI", &f((x.radius)))));
    o.push(("MATR".into(), rec("MATR", &str8(&x.material))));
    o.push(("SURF".into(), rec("SURF", &str8(&x.surface))));
    o.push(("EBLD".into(), rec("EBLD", &b32(x.is_enabled))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("TYPE".into(), rec("TYPE", &enc_KickerType(&x.kicker_type))));
    o.push(("KSCT".into(), rec("KSCT", &f((x.scatter)))));
    o.push(("KHAC".into(), rec("KHAC", &f((x.hit_accuracy)))));
    if let Some(v) = &x.hit_height { o.push(("KHHI".into(), rec("KHHI", &f((*v))))); }
    o.push(("KORI".into(), rec("KORI", &f((x.orientation)))));
    o.push(("FATH".into(), rec("FATH", &b32(x.fall_through))));
    o.push(("LEMO".into(), rec("LEMO", &b32(x.legacy_mode))));
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_Kicker(t: &str, x: &mut kicker::Kicker, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "VCEN" => { let v = Vertex2D { x: r.f32(), y: r.f32() }; b.extend(draw::v2_bytes(&v)); x.center = v; draw::trail(&mut b, r); }
        "RADI" => { let v = r.f32(); b.extend(f((v))); x.radius = v; draw::trail(&mut b, r); }
        "MATR" => { let (v, e) = draw::string(r); b.extend(e); x.material = v; draw::trail(&mut b, r); }
        "SURF" => { let (v, e) = draw::string(r); b.extend(e); x.surface = v; draw::trail(&mut b, r); }
        "EBLD" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_enabled = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "TYPE" => { let (v, e) = draw_KickerType(r); b.extend(le32(e)); x.kicker_type = v; draw::trail(&mut b, r); }
        "KSCT" => { let v = r.f32(); b.extend(f((v))); x.scatter = v; draw::trail(&mut b, r); }
        "KHAC" => { let v = r.f32(); b.extend(f((v))); x.hit_accuracy = v; draw::trail(&mut b, r); }
        "KHHI" => { let v = r.f32(); b.extend(f((v))); x.hit_height = Some(v); draw::trail(&mut b, r); }
        "KORI" => { let v = r.f32(); b.extend(f((v))); x.orientation = v; draw::trail(&mut b, r); }
        "FATH" => { let (v, e) = draw::boolean(r); b.extend(e); x.fall_through = v; draw::trail(&mut b, r); }
        "LEMO" => { let (v, e) = draw::boolean(r); b.extend(e); x.legacy_mode = v; draw::trail(&mut b, r); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Kicker() -> kicker::Kicker { let mut x = kicker::Kicker::default(); x }
pub fn random_Kicker(r: &mut Rng) -> kicker::Kicker {
    let mut x = kicker::Kicker::default();
    let dense = r.below(4);
    for t in ["VCEN", "RADI", "MATR", "SURF", "EBLD", "NAME", "TYPE", "KSCT", "KHAC", "KHHI", "KORI", "FATH", "LEMO", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Kicker(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    if r.chance(3) { x.hit_height = None; }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_Kicker(what: &str, got: &kicker::Kicker, want: &kicker::Kicker) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- Light
pub const LIGHT_TAGS: &[&str] = &["VCEN", "HGHT", "RADI", "FAPO", "STAT", "STTF", "COLR", "COL2", "BPAT", "IMG1", "BINT", "BWTH", "TRMS", "SURF", "NAME", "BGLS", "LIDB", "FASP", "FASD", "BULT", "IMMO", "SHBM", "STBM", "SHRB", "BMSC", "BMVA", "BHHI", "SHDW", "FADE", "VSBL", "DPNT", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_Light(x: &light::Light) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("VCEN".into(), rec("VCEN", &draw::v2_bytes(&x.center))));
    if let Some(v) = &x.height { o.push(("HGHT".into(), rec("HGHT", &f((*v))))); }
    o.push(("RADI".into(), rec("RADI", &f((x.falloff_radius)))));
    o.push(("FAPO".into(), rec("FAPO", &f((x.falloff_power)))));
    o.push(("STAT".into(), rec("STAT", &le32((x.state_u32)))));
    if let Some(v) = &x.state { o.push(("STTF".into(), rec("STTF", &f((*v))))); }
    o.push(("COLR".into(), rec("COLR", &draw::color_bytes(&x.color))));
    o.push(("COL2".into(), rec("COL2", &draw::color_bytes(&x.color2))));
    o.push(("BPAT".into(), rec("BPAT", &str8(&x.blink_pattern))));
    o.push(("IMG1".into(), rec("IMG1", &str8(&x.image))));
    o.push(("BINT".into(), rec("BINT", &le32((x.blink_interval)))));
    o.push(("BWTH".into(), rec("BWTH", &f((x.intensity)))));
    o.push(("TRMS".into(), rec("TRMS", &f((x.transmission_scale)))));
    o.push(("SURF".into(), rec("SURF", &str8(&x.surface))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("BGLS".into(), rec("BGLS", &b32(x.is_backglass))));
    o.push(("LIDB".into(), rec("LIDB", &f((x.depth_bias)))));
    o.push(("FASP".into(), rec("FASP", &f((x.fade_speed_up)))));
    o.push(("FASD".into(), rec("FASD", &f((x.fade_speed_down)))));
    o.push(("BULT".into(), rec("BULT", &b32(x.is_bulb_light))));
    o.push(("IMMO".into(), rec("IMMO", &b32(x.is_image_mode))));
    o.push(("SHBM".into(), rec("SHBM", &b32(x.show_bulb_mesh))));
    if let Some(v) = &x.has_static_bulb_mesh { o.push(("STBM".into(), rec("STBM", &b32(*v)))); }
    o.push(("SHRB".into(), rec("SHRB", &b32(x.show_reflection_on_ball))));
    o.push(("BMSC".into(), rec("BMSC", &f((x.mesh_radius)))));
    o.push(("BMVA".into(), rec("BMVA", &f((x.bulb_modulate_vs_add)))));
    o.push(("BHHI".into(), rec("BHHI", &f((x.bulb_halo_height)))));
    if let Some(v) = &x.shadows { o.push(("SHDW".into(), rec("SHDW", &enc_ShadowMode(&v)))); }
    if let Some(v) = &x.fader { o.push(("FADE".into(), rec("FADE", &enc_Fader(&v)))); }
    if let Some(v) = &x.visible { o.push(("VSBL".into(), rec("VSBL", &b32(*v)))); }
    for p in &x.drag_points { o.push(("DPNT".into(), [rec("DPNT", &[]), draw::concat(records_DragPoint(p)), endb()].concat())); }
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_Light(t: &str, x: &mut light::Light, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "VCEN" => { let v = Vertex2D { x: r.f32(), y: r.f32() }; b.extend(draw::v2_bytes(&v)); x.center = v; draw::trail(&mut b, r); }
        "HGHT" => { let v = r.f32(); b.extend(f((v))); x.height = Some(v); draw::trail(&mut b, r); }
        "RADI" => { let v = r.f32(); b.extend(f((v))); x.falloff_radius = v; draw::trail(&mut b, r); }
        "FAPO" => { let v = r.f32(); b.extend(f((v))); x.falloff_power = v; draw::trail(&mut b, r); }
        "STAT" => { let v = r.u32(); b.extend(le32((v))); x.state_u32 = v; draw::trail(&mut b, r); }
        "STTF" => { let v = r.f32(); b.extend(f((v))); x.state = Some(v); draw::trail(&mut b, r); }
        "COLR" => { let (v, e) = draw::color(r); b.extend(e); x.color = v; draw::trail(&mut b, r); }
        "COL2" => { let (v, e) = draw::color(r); b.extend(e); x.color2 = v; draw::trail(&mut b, r); }
        "BPAT" => { let (v, e) = draw::string(r); b.extend(e); x.blink_pattern = v; draw::trail(&mut b, r); }
        "IMG1" => { let (v, e) = draw::string(r); b.extend(e); x.image = v; draw::trail(&mut b, r); }
        "BINT" => { let v = r.u32(); b.extend(le32((v))); x.blink_interval = v; draw::trail(&mut b, r); }
        "BWTH" => { let v = r.f32(); b.extend(f((v))); x.intensity = v; draw::trail(&mut b, r); }
        "TRMS" => { let v = r.f32(); b.extend(f((v))); x.transmission_scale = v; draw::trail(&mut b, r); }
        "SURF" => { let (v, e) = draw::string(r); b.extend(e); x.surface = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "BGLS" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_backglass = v; draw::trail(&mut b, r); }
        "LIDB" => { let v = r.f32(); b.extend(f((v))); x.depth_bias = v; draw::trail(&mut b, r); }
        "FASP" => { let v = r.f32(); b.extend(f((v))); x.fade_speed_up = v; draw::trail(&mut b, r); }
        "FASD" => { let v = r.f32(); b.extend(f((v))); x.fade_speed_down = v; draw::trail(&mut b, r); }
        "BULT" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_bulb_light = v; draw::trail(&mut b, r); }
        "IMMO" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_image_mode = v; draw::trail(&mut b, r); }
        "SHBM" => { let (v, e) = draw::boolean(r); b.extend(e); x.show_bulb_mesh = v; draw::trail(&mut b, r); }
        "STBM" => { let (v, e) = draw::boolean(r); b.extend(e); x.has_static_bulb_mesh = Some(v); draw::trail(&mut b, r); }
        "SHRB" => { let (v, e) = draw::boolean(r); b.extend(e); x.show_reflection_on_ball = v; draw::trail(&mut b, r); }
        "BMSC" => { let v = r.f32(); b.extend(f((v))); x.mesh_radius = v; draw::trail(&mut b, r); }
        "BMVA" => { let v = r.f32(); b.extend(f((v))); x.bulb_modulate_vs_add = v; draw::trail(&mut b, r); }
        "BHHI" => { let v = r.f32(); b.extend(f((v))); x.bulb_halo_height = v; draw::trail(&mut b, r); }
        "SHDW" => { let (v, e) = draw_ShadowMode(r); b.extend(le32(e)); x.shadows = Some(v); draw::trail(&mut b, r); }
        "FADE" => { let (v, e) = draw_Fader(r); b.extend(le32(e)); x.fader = Some(v); draw::trail(&mut b, r); }
        "VSBL" => { let (v, e) = draw::boolean(r); b.extend(e); x.visible = Some(v); draw::trail(&mut b, r); }
        "DPNT" => { let (p, e) = draw::drag_point(r); x.drag_points.push(p); return [rec("DPNT", &[]), e].concat(); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Light() -> light::Light { let mut x = light::Light::default(); x }
pub fn random_Light(r: &mut Rng) -> light::Light {
    let mut x = light::Light::default();
    let dense = r.below(4);
    for t in ["VCEN", "HGHT", "RADI", "FAPO", "STAT", "STTF", "COLR", "COL2", "BPAT", "IMG1", "BINT", "BWTH", "TRMS", "SURF", "NAME", "BGLS", "LIDB", "FASP", "FASD", "BULT", "IMMO", "SHBM", "STBM", "SHRB", "BMSC", "BMVA", "BHHI", "SHDW", "FADE", "VSBL", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Light(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    for _ in 0..r.below(4) { x.drag_points.push(random_DragPoint(r)); }
    if r.chance(3) { x.height = None; }
    if r.chance(3) { x.state = None; }
    if r.chance(3) { x.has_static_bulb_mesh = None; }
    if r.chance(3) { x.shadows = None; }
    if r.chance(3) { x.fader = None; }
    if r.chance(3) { x.visible = None; }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_Light(what: &str, got: &light::Light, want: &light::Light) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- LightSequencer
pub const LIGHTSEQUENCER_TAGS: &[&str] = &["VCEN", "COLC", "CTRX", "CTRY", "UPTM", "NAME", "BGLS", "LOCK", "LAYR", "LANR", "LVIS", "GRUP", "TMON", "TMIN"];
pub fn records_LightSequencer(x: &lightsequencer::LightSequencer) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("VCEN".into(), rec("VCEN", &draw::v2_bytes(&x.center))));
    o.push(("COLC".into(), rec("COLC", &wide(&x.collection))));
    o.push(("CTRX".into(), rec("CTRX", &f((x.pos_x)))));
    o.push(("CTRY".into(), rec("CTRY", &f((x.pos_y)))));
    o.push(("UPTM".into(), rec("UPTM", &le32((x.update_interval)))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("BGLS".into(), rec("BGLS", &b32(x.backglass))));
    if let Some(v) = &x.is_locked { o.push(("LOCK".into(), rec("LOCK", &b32(*v)))); }
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o
}
pub fn set_LightSequencer(t: &str, x: &mut lightsequencer::LightSequencer, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "VCEN" => { let v = Vertex2D { x: r.f32(), y: r.f32() }; b.extend(draw::v2_bytes(&v)); x.center = v; draw::trail(&mut b, r); }
        "COLC" => { let (v, e) = draw::wide_string(r); b.extend(e); x.collection = v; draw::trail(&mut b, r); }
        "CTRX" => { let v = r.f32(); b.extend(f((v))); x.pos_x = v; draw::trail(&mut b, r); }
        "CTRY" => { let v = r.f32(); b.extend(f((v))); x.pos_y = v; draw::trail(&mut b, r); }
        "UPTM" => { let v = r.u32(); b.extend(le32((v))); x.update_interval = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "BGLS" => { let (v, e) = draw::boolean(r); b.extend(e); x.backglass = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = Some(v); draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_LightSequencer() -> lightsequencer::LightSequencer { let mut x = lightsequencer::LightSequencer::default(); x }
pub fn random_LightSequencer(r: &mut Rng) -> lightsequencer::LightSequencer {
    let mut x = lightsequencer::LightSequencer::default();
    let dense = r.below(4);
    for t in ["VCEN", "COLC", "CTRX", "CTRY", "UPTM", "NAME", "BGLS", "LOCK", "LAYR", "LANR", "LVIS", "GRUP", "TMON", "TMIN"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_LightSequencer(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    if r.chance(3) { x.is_locked = None; }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_LightSequencer(what: &str, got: &lightsequencer::LightSequencer, want: &lightsequencer::LightSequencer) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- PartGroup
pub const PARTGROUP_TAGS: &[&str] = &["NAME", "VCEN", "BGLS", "VMSK", "SPRF", "PMSK", "LOCK", "LANR", "LVIS", "TMON", "TMIN"];
pub fn records_PartGroup(x: &partgroup::PartGroup) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("VCEN".into(), rec("VCEN", &draw::v2_bytes(&x.center))));
    o.push(("BGLS".into(), rec("BGLS", &b32(x.backglass))));
    if let Some(v) = &x.visibility_mask { o.push(("VMSK".into(), rec("VMSK", &le32((*v))))); }
    o.push(("SPRF".into(), rec("SPRF", &enc_SpaceReference(&x.space_reference))));
    if let Some(v) = &x.player_mode_visibility_mask { o.push(("PMSK".into(), rec("PMSK", &le32((*v))))); }
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o
}
pub fn set_PartGroup(t: &str, x: &mut partgroup::PartGroup, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "VCEN" => { let v = Vertex2D { x: r.f32(), y: r.f32() }; b.extend(draw::v2_bytes(&v)); x.center = v; draw::trail(&mut b, r); }
        "BGLS" => { let (v, e) = draw::boolean(r); b.extend(e); x.backglass = v; draw::trail(&mut b, r); }
        "VMSK" => { let v = r.u32(); b.extend(le32((v))); x.visibility_mask = Some(v); draw::trail(&mut b, r); }
        "SPRF" => { let (v, e) = draw_SpaceReference(r); b.extend(le32(e)); x.space_reference = v; draw::trail(&mut b, r); }
        "PMSK" => { let v = r.u32(); b.extend(le32((v))); x.player_mode_visibility_mask = Some(v); draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_PartGroup() -> partgroup::PartGroup { let mut x = partgroup::PartGroup::default(); x }
pub fn random_PartGroup(r: &mut Rng) -> partgroup::PartGroup {
    let mut x = partgroup::PartGroup::default();
    let dense = r.below(4);
    for t in ["NAME", "VCEN", "BGLS", "VMSK", "SPRF", "PMSK", "LOCK", "LANR", "LVIS", "TMON", "TMIN"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_PartGroup(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    if r.chance(3) { x.visibility_mask = None; }
    if r.chance(3) { x.player_mode_visibility_mask = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    x
}
pub fn same_PartGroup(what: &str, got: &partgroup::PartGroup, want: &partgroup::PartGroup) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- Plunger
pub const PLUNGER_TAGS: &[&str] = &["VCEN", "WDTH", "HIGH", "ZADJ", "HPSL", "SPDP", "SPDF", "TYPE", "ANFR", "MATR", "IMAG", "MEST", "MECH", "APLG", "MPRK", "PSCV", "MOMX", "VSBL", "REEN", "SURF", "NAME", "TIPS", "RODD", "RNGG", "RNGD", "RNGW", "SPRD", "SPRG", "SPRL", "SPRE", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_Plunger(x: &plunger::Plunger) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("VCEN".into(), rec("VCEN", &draw::v2_bytes(&x.center))));
    o.push(("WDTH".into(), rec("WDTH", &f((x.width)))));
    o.push(("HIGH".into(), rec("HIGH", &f((x.height)))));
    o.push(("ZADJ".into(), rec("ZADJ", &f((x.z_adjust)))));
    o.push(("HPSL".into(), rec("HPSL", &f((x.stroke)))));
    o.push(("SPDP".into(), rec("SPDP", &f((x.speed_pull)))));
    o.push(("SPDF".into(), rec("SPDF", &f((x.speed_fire)))));
    o.push(("TYPE".into(), rec("TYPE", &enc_PlungerType(&x.plunger_type))));
    o.push(("ANFR".into(), rec("ANFR", &le32((x.anim_frames)))));
    o.push(("MATR".into(), rec("MATR", &str8(&x.material))));
    o.push(("IMAG".into(), rec("IMAG", &str8(&x.image))));
    o.push(("MEST".into(), rec("MEST", &f((x.mech_strength)))));
    o.push(("MECH".into(), rec("MECH", &b32(x.is_mech_plunger))));
    o.push(("APLG".into(), rec("APLG", &b32(x.auto_plunger))));
    o.push(("MPRK".into(), rec("MPRK", &f((x.park_position)))));
    o.push(("PSCV".into(), rec("PSCV", &f((x.scatter_velocity)))));
    o.push(("MOMX".into(), rec("MOMX", &f((x.momentum_xfer)))));
    o.push(("VSBL".into(), rec("VSBL", &b32(x.is_visible))));
    if let Some(v) = &x.is_reflection_enabled { o.push(("REEN".into(), rec("REEN", &b32(*v)))); }
    o.push(("SURF".into(), rec("SURF", &str8(&x.surface))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("TIPS".into(), rec("TIPS", &str8(&x.tip_shape))));
    o.push(("RODD".into(), rec("RODD", &f((x.rod_diam)))));
    o.push(("RNGG".into(), rec("RNGG", &f((x.ring_gap)))));
    o.push(("RNGD".into(), rec("RNGD", &f((x.ring_diam)))));
    o.push(("RNGW".into(), rec("RNGW", &f((x.ring_width)))));
    o.push(("SPRD".into(), rec("SPRD", &f((x.spring_diam)))));
    o.push(("SPRG".into(), rec("SPRG", &f((x.spring_gauge)))));
    o.push(("SPRL".into(), rec("SPRL", &f((x.spring_loops)))));
    o.push(("SPRE".into(), rec("SPRE", &f((x.spring_end_loops)))));
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_Plunger(t: &str, x: &mut plunger::Plunger, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "VCEN" => { let v = Vertex2D { x: r.f32(), y: r.f32() }; b.extend(draw::v2_bytes(&v)); x.center = v; draw::trail(&mut b, r); }
        "WDTH" => { let v = r.f32(); b.extend(f((v))); x.width = v; draw::trail(&mut b, r); }
        "HIGH" => { let v = r.f32(); b.extend(f((v))); x.height = v; draw::trail(&mut b, r); }
        "ZADJ" => { let v = r.f32(); b.extend(f((v))); x.z_adjust = v; draw::trail(&mut b, r); }
        "HPSL" => { let v = r.f32(); b.extend(f((v))); x.stroke = v; draw::trail(&mut b, r); }
        "SPDP" => { let v = r.f32(); b.extend(f((v))); x.speed_pull = v; draw::trail(&mut b, r); }
        "SPDF" => { let v = r.f32(); b.extend(f((v))); x.speed_fire = v; draw::trail(&mut b, r); }
        "TYPE" => { let (v, e) = draw_PlungerType(r); b.extend(le32(e)); x.plunger_type = v; draw::trail(&mut b, r); }
        "ANFR" => { let v = r.u32(); b.extend(le32((v))); x.anim_frames = v; draw::trail(&mut b, r); }
        "MATR" => { let (v, e) = draw::string(r); b.extend(e); x.material = v; draw::trail(&mut b, r); }
        "IMAG" => { let (v, e) = draw::string(r); b.extend(e); x.image = v; draw::trail(&mut b, r); }
        "MEST" => { let v = r.f32(); b.extend(f((v))); x.mech_strength = v; draw::trail(&mut b, r); }
        "MECH" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_mech_plunger = v; draw::trail(&mut b, r); }
        "APLG" => { let (v, e) = draw::boolean(r); b.extend(e); x.auto_plunger = v; draw::trail(&mut b, r); }
        "MPRK" => { let v = r.f32(); b.extend(f((v))); x.park_position = v; draw::trail(&mut b, r); }
        "PSCV" => { let v = r.f32(); b.extend(f((v))); x.scatter_velocity = v; draw::trail(&mut b, r); }
        "MOMX" => { let v = r.f32(); b.extend(f((v))); x.momentum_xfer = v; draw::trail(&mut b, r); }
        "VSBL" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_visible = v; draw::trail(&mut b, r); }
        "REEN" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_reflection_enabled = Some(v); draw::trail(&mut b, r); }
        "SURF" => { let (v, e) = draw::string(r); b.extend(e); x.surface = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "TIPS" => { let (v, e) = draw::string(r); b.extend(e); x.tip_shape = v; draw::trail(&mut b, r); }
        "RODD" => { let v = r.f32(); b.extend(f((v))); x.rod_diam = v; draw::trail(&mut b, r); }
        "RNGG" => { let v = r.f32(); b.extend(f((v))); x.ring_gap = v; draw::trail(&mut b, r); }
        "RNGD" => { let v = r.f32(); b.extend(f((v))); x.ring_diam = v; draw::trail(&mut b, r); }
        "RNGW" => { let v = r.f32(); b.extend(f((v))); x.ring_width = v; draw::trail(&mut b, r); }
        "SPRD" => { let v = r.f32(); b.extend(f((v))); x.spring_diam = v; draw::trail(&mut b, r); }
        "SPRG" => { let v = r.f32(); b.extend(f((v))); x.spring_gauge = v; draw::trail(&mut b, r); }
        "SPRL" => { let v = r.f32(); b.extend(f((v))); x.spring_loops = v; draw::trail(&mut b, r); }
        "SPRE" => { let v = r.f32(); b.extend(f((v))); x.spring_end_loops = v; draw::trail(&mut b, r); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Plunger() -> plunger::Plunger { let mut x = plunger::Plunger::default(); x.is_reflection_enabled = None; x }
pub fn random_Plunger(r: &mut Rng) -> plunger::Plunger {
    let mut x = plunger::Plunger::default();
    let dense = r.below(4);
    for t in ["VCEN", "WDTH", "HIGH", "ZADJ", "HPSL", "SPDP", "SPDF", "TYPE", "ANFR", "MATR", "IMAG", "MEST", "MECH", "APLG", "MPRK", "PSCV", "MOMX", "VSBL", "REEN", "SURF", "NAME", "TIPS", "RODD", "RNGG", "RNGD", "RNGW", "SPRD", "SPRG", "SPRL", "SPRE", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Plunger(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    if r.chance(3) { x.is_reflection_enabled = None; }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_Plunger(what: &str, got: &plunger::Plunger, want: &plunger::Plunger) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- Primitive
pub const PRIMITIVE_TAGS: &[&str] = &["VPOS", "VSIZ", "RTV0", "RTV1", "RTV2", "RTV3", "RTV4", "RTV5", "RTV6", "RTV7", "RTV8", "IMAG", "NRMA", "SIDS", "NAME", "MATR", "SCOL", "TVIS", "DTXI", "HTEV", "THRS", "ELAS", "ELFO", "RFCT", "RSCT", "EFUI", "CORF", "CLDR", "ISTO", "U3DM", "STRE", "DILI", "DILT", "DILB", "REEN", "EBFC", "MAPH", "OVPH", "DIPT", "OSNM", "BMIN", "BMAX", "M3DN", "M3VN", "M3CY", "M3CX", "M3FN", "M3CJ", "M3CI", "M3AY", "M3AX", "PIDB", "ADDB", "ZMSK", "FALP", "COLR", "LMAP", "REFL", "RSTR", "REFR", "RTHI", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_Primitive(x: &primitive::Primitive) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("VPOS".into(), rec("VPOS", &draw::v3_bytes(&x.position, true))));
    o.push(("VSIZ".into(), rec("VSIZ", &draw::v3_bytes(&x.size, true))));
    o.push(("RTV0".into(), rec("RTV0", &f((x.rot_and_tra[0])))));
    o.push(("RTV1".into(), rec("RTV1", &f((x.rot_and_tra[1])))));
    o.push(("RTV2".into(), rec("RTV2", &f((x.rot_and_tra[2])))));
    o.push(("RTV3".into(), rec("RTV3", &f((x.rot_and_tra[3])))));
    o.push(("RTV4".into(), rec("RTV4", &f((x.rot_and_tra[4])))));
    o.push(("RTV5".into(), rec("RTV5", &f((x.rot_and_tra[5])))));
    o.push(("RTV6".into(), rec("RTV6", &f((x.rot_and_tra[6])))));
    o.push(("RTV7".into(), rec("RTV7", &f((x.rot_and_tra[7])))));
    o.push(("RTV8".into(), rec("RTV8", &f((x.rot_and_tra[8])))));
    o.push(("IMAG".into(), rec("IMAG", &str8(&x.image))));
    if let Some(v) = &x.normal_map { o.push(("NRMA".into(), rec("NRMA", &str8(&v)))); }
    o.push(("SIDS".into(), rec("SIDS", &le32((x.sides)))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("MATR".into(), rec("MATR", &str8(&x.material))));
    o.push(("SCOL".into(), rec("SCOL", &draw::color_bytes(&x.side_color))));
    o.push(("TVIS".into(), rec("TVIS", &b32(x.is_visible))));
    o.push(("DTXI".into(), rec("DTXI", &b32(x.draw_textures_inside))));
    o.push(("HTEV".into(), rec("HTEV", &b32(x.hit_event))));
    o.push(("THRS".into(), rec("THRS", &f((x.threshold)))));
    o.push(("ELAS".into(), rec("ELAS", &f((x.elasticity)))));
    o.push(("ELFO".into(), rec("ELFO", &f((x.elasticity_falloff)))));
    o.push(("RFCT".into(), rec("RFCT", &f((x.friction)))));
    o.push(("RSCT".into(), rec("RSCT", &f((x.scatter)))));
    o.push(("EFUI".into(), rec("EFUI", &f((x.edge_factor_ui)))));
    if let Some(v) = &x.collision_reduction_factor { o.push(("CORF".into(), rec("CORF", &f((*v))))); }
    o.push(("CLDR".into(), rec("CLDR", &b32(x.is_collidable))));
    o.push(("ISTO".into(), rec("ISTO", &b32(x.is_toy))));
    o.push(("U3DM".into(), rec("U3DM", &b32(x.use_3d_mesh))));
    o.push(("STRE".into(), rec("STRE", &b32(x.static_rendering))));
    if let Some(v) = &x.disable_lighting_top_old { o.push(("DILI".into(), rec("DILI", &draw::q8_bytes(*v)))); }
    if let Some(v) = &x.disable_lighting_top { o.push(("DILT".into(), rec("DILT", &f((*v))))); }
    if let Some(v) = &x.disable_lighting_below { o.push(("DILB".into(), rec("DILB", &f((*v))))); }
    if let Some(v) = &x.is_reflection_enabled { o.push(("REEN".into(), rec("REEN", &b32(*v)))); }
    if let Some(v) = &x.backfaces_enabled { o.push(("EBFC".into(), rec("EBFC", &b32(*v)))); }
    if let Some(v) = &x.physics_material { o.push(("MAPH".into(), rec("MAPH", &str8(&v)))); }
    if let Some(v) = &x.overwrite_physics { o.push(("OVPH".into(), rec("OVPH", &b32(*v)))); }
    if let Some(v) = &x.display_texture { o.push(("DIPT".into(), rec("DIPT", &b32(*v)))); }
    if let Some(v) = &x.object_space_normal_map { o.push(("OSNM".into(), rec("OSNM", &b32(*v)))); }
    if let Some(v) = &x.min_aa_bound { o.push(("BMIN".into(), rec("BMIN", &draw::v3_bytes(&v, false)))); }
    if let Some(v) = &x.max_aa_bound { o.push(("BMAX".into(), rec("BMAX", &draw::v3_bytes(&v, false)))); }
    if let Some(v) = &x.mesh_file_name { o.push(("M3DN".into(), rec("M3DN", &str8(&v)))); }
    if let Some(v) = &x.num_vertices { o.push(("M3VN".into(), rec("M3VN", &le32((*v))))); }
    if let Some(v) = &x.compressed_vertices_len { o.push(("M3CY".into(), rec("M3CY", &le32((*v))))); }
    if let Some(v) = &x.compressed_vertices_data { o.push(("M3CX".into(), rec("M3CX", &v.clone()))); }
    if let Some(v) = &x.num_indices { o.push(("M3FN".into(), rec("M3FN", &le32((*v))))); }
    if let Some(v) = &x.compressed_indices_len { o.push(("M3CJ".into(), rec("M3CJ", &le32((*v))))); }
    if let Some(v) = &x.compressed_indices_data { o.push(("M3CI".into(), rec("M3CI", &v.clone()))); }
    for i in 0..x.compressed_animation_vertices_len.as_ref().map_or(0, |v| v.len()) {
        o.push(("M3AY".into(), rec("M3AY", &le32((x.compressed_animation_vertices_len.as_ref().unwrap()[i])))));
        o.push(("M3AX".into(), rec("M3AX", &x.compressed_animation_vertices_data.as_ref().unwrap()[i].clone())));
    }
    o.push(("PIDB".into(), rec("PIDB", &f((x.depth_bias)))));
    if let Some(v) = &x.add_blend { o.push(("ADDB".into(), rec("ADDB", &b32(*v)))); }
    if let Some(v) = &x.use_depth_mask { o.push(("ZMSK".into(), rec("ZMSK", &b32(*v)))); }
    if let Some(v) = &x.alpha { o.push(("FALP".into(), rec("FALP", &f((*v))))); }
    if let Some(v) = &x.color { o.push(("COLR".into(), rec("COLR", &draw::color_bytes(&v)))); }
    if let Some(v) = &x.light_map { o.push(("LMAP".into(), rec("LMAP", &str8(&v)))); }
    if let Some(v) = &x.reflection_probe { o.push(("REFL".into(), rec("REFL", &str8(&v)))); }
    if let Some(v) = &x.reflection_strength { o.push(("RSTR".into(), rec("RSTR", &f((*v))))); }
    if let Some(v) = &x.refraction_probe { o.push(("REFR".into(), rec("REFR", &str8(&v)))); }
    if let Some(v) = &x.refraction_thickness { o.push(("RTHI".into(), rec("RTHI", &f((*v))))); }
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_Primitive(t: &str, x: &mut primitive::Primitive, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "VPOS" => { let v = Vertex3D { x: r.f32(), y: r.f32(), z: r.f32() }; b.extend(draw::v3_bytes_pad(&v, r)); x.position = v; draw::trail(&mut b, r); }
        "VSIZ" => { let v = Vertex3D { x: r.f32(), y: r.f32(), z: r.f32() }; b.extend(draw::v3_bytes_pad(&v, r)); x.size = v; draw::trail(&mut b, r); }
        "RTV0" => { let v = r.f32(); b.extend(f((v))); x.rot_and_tra[0] = v; draw::trail(&mut b, r); }
        "RTV1" => { let v = r.f32(); b.extend(f((v))); x.rot_and_tra[1] = v; draw::trail(&mut b, r); }
        "RTV2" => { let v = r.f32(); b.extend(f((v))); x.rot_and_tra[2] = v; draw::trail(&mut b, r); }
        "RTV3" => { let v = r.f32(); b.extend(f((v))); x.rot_and_tra[3] = v; draw::trail(&mut b, r); }
        "RTV4" => { let v = r.f32(); b.extend(f((v))); x.rot_and_tra[4] = v; draw::trail(&mut b, r); }
        "RTV5" => { let v = r.f32(); b.extend(f((v))); x.rot_and_tra[5] = v; draw::trail(&mut b, r); }
        "RTV6" => { let v = r.f32(); b.extend(f((v))); x.rot_and_tra[6] = v; draw::trail(&mut b, r); }
        "RTV7" => { let v = r.f32(); b.extend(f((v))); x.rot_and_tra[7] = v; draw::trail(&mut b, r); }
        "RTV8" => { let v = r.f32(); b.extend(f((v))); x.rot_and_tra[8] = v; draw::trail(&mut b, r); }
        "IMAG" => { let (v, e) = draw::string(r); b.extend(e); x.image = v; draw::trail(&mut b, r); }
        "NRMA" => { let (v, e) = draw::string(r); b.extend(e); x.normal_map = Some(v); draw::trail(&mut b, r); }
        "SIDS" => { let v = r.u32(); b.extend(le32((v))); x.sides = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "MATR" => { let (v, e) = draw::string(r); b.extend(e); x.material = v; draw::trail(&mut b, r); }
        "SCOL" => { let (v, e) = draw::color(r); b.extend(e); x.side_color = v; draw::trail(&mut b, r); }
        "TVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_visible = v; draw::trail(&mut b, r); }
        "DTXI" => { let (v, e) = draw::boolean(r); b.extend(e); x.draw_textures_inside = v; draw::trail(&mut b, r); }
        "HTEV" => { let (v, e) = draw::boolean(r); b.extend(e); x.hit_event = v; draw::trail(&mut b, r); }
        "THRS" => { let v = r.f32(); b.extend(f((v))); x.threshold = v; draw::trail(&mut b, r); }
        "ELAS" => { let v = r.f32(); b.extend(f((v))); x.elasticity = v; draw::trail(&mut b, r); }
        "ELFO" => { let v = r.f32(); b.extend(f((v))); x.elasticity_falloff = v; draw::trail(&mut b, r); }
        "RFCT" => { let v = r.f32(); b.extend(f((v))); x.friction = v; draw::trail(&mut b, r); }
        "RSCT" => { let v = r.f32(); b.extend(f((v))); x.scatter = v; draw::trail(&mut b, r); }
        "EFUI" => { let v = r.f32(); b.extend(f((v))); x.edge_factor_ui = v; draw::trail(&mut b, r); }
        "CORF" => { let v = r.f32(); b.extend(f((v))); x.collision_reduction_factor = Some(v); draw::trail(&mut b, r); }
        "CLDR" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_collidable = v; draw::trail(&mut b, r); }
        "ISTO" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_toy = v; draw::trail(&mut b, r); }
        "U3DM" => { let (v, e) = draw::boolean(r); b.extend(e); x.use_3d_mesh = v; draw::trail(&mut b, r); }
        "STRE" => { let (v, e) = draw::boolean(r); b.extend(e); x.static_rendering = v; draw::trail(&mut b, r); }
        "DILI" => { let (v, e) = draw::q8(r); b.extend(e); x.disable_lighting_top_old = Some(v); draw::trail(&mut b, r); }
        "DILT" => { let v = r.f32(); b.extend(f((v))); x.disable_lighting_top = Some(v); draw::trail(&mut b, r); }
        "DILB" => { let v = r.f32(); b.extend(f((v))); x.disable_lighting_below = Some(v); draw::trail(&mut b, r); }
        "REEN" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_reflection_enabled = Some(v); draw::trail(&mut b, r); }
        "EBFC" => { let (v, e) = draw::boolean(r); b.extend(e); x.backfaces_enabled = Some(v); draw::trail(&mut b, r); }
        "MAPH" => { let (v, e) = draw::string(r); b.extend(e); x.physics_material = Some(v); draw::trail(&mut b, r); }
        "OVPH" => { let (v, e) = draw::boolean(r); b.extend(e); x.overwrite_physics = Some(v); draw::trail(&mut b, r); }
        "DIPT" => { let (v, e) = draw::boolean(r); b.extend(e); x.display_texture = Some(v); draw::trail(&mut b, r); }
        "OSNM" => { let (v, e) = draw::boolean(r); b.extend(e); x.object_space_normal_map = Some(v); draw::trail(&mut b, r); }
        "BMIN" => { let v = Vertex3D { x: r.f32(), y: r.f32(), z: r.f32() }; b.extend(draw::v3_bytes(&v, false)); x.min_aa_bound = Some(v); draw::trail(&mut b, r); }
        "BMAX" => { let v = Vertex3D { x: r.f32(), y: r.f32(), z: r.f32() }; b.extend(draw::v3_bytes(&v, false)); x.max_aa_bound = Some(v); draw::trail(&mut b, r); }
        "M3DN" => { let (v, e) = draw::string(r); b.extend(e); x.mesh_file_name = Some(v); draw::trail(&mut b, r); }
        "M3VN" => { let v = r.u32(); b.extend(le32((v))); x.num_vertices = Some(v); draw::trail(&mut b, r); }
        "M3CY" => { let v = r.u32(); b.extend(le32((v))); x.compressed_vertices_len = Some(v); draw::trail(&mut b, r); }
        "M3CX" => { let v = r.bytes(60); b.extend(v.clone()); x.compressed_vertices_data = Some(v); }
        "M3FN" => { let v = r.u32(); b.extend(le32((v))); x.num_indices = Some(v); draw::trail(&mut b, r); }
        "M3CJ" => { let v = r.u32(); b.extend(le32((v))); x.compressed_indices_len = Some(v); draw::trail(&mut b, r); }
        "M3CI" => { let v = r.bytes(60); b.extend(v.clone()); x.compressed_indices_data = Some(v); }
        "M3AY" => { let v = r.u32(); b.extend(le32((v))); x.compressed_animation_vertices_len.get_or_insert_with(Vec::new).push(v); draw::trail(&mut b, r); }
        "M3AX" => { let v = r.bytes(60); b.extend(v.clone()); x.compressed_animation_vertices_data.get_or_insert_with(Vec::new).push(v); }
        "PIDB" => { let v = r.f32(); b.extend(f((v))); x.depth_bias = v; draw::trail(&mut b, r); }
        "ADDB" => { let (v, e) = draw::boolean(r); b.extend(e); x.add_blend = Some(v); draw::trail(&mut b, r); }
        "ZMSK" => { let (v, e) = draw::boolean(r); b.extend(e); x.use_depth_mask = Some(v); draw::trail(&mut b, r); }
        "FALP" => { let v = r.f32(); b.extend(f((v))); x.alpha = Some(v); draw::trail(&mut b, r); }
        "COLR" => { let (v, e) = draw::color(r); b.extend(e); x.color = Some(v); draw::trail(&mut b, r); }
        "LMAP" => { let (v, e) = draw::string(r); b.extend(e); x.light_map = Some(v); draw::trail(&mut b, r); }
        "REFL" => { let (v, e) = draw::string(r); b.extend(e); x.reflection_probe = Some(v); draw::trail(&mut b, r); }
        "RSTR" => { let v = r.f32(); b.extend(f((v))); x.reflection_strength = Some(v); draw::trail(&mut b, r); }
        "REFR" => { let (v, e) = draw::string(r); b.extend(e); x.refraction_probe = Some(v); draw::trail(&mut b, r); }
        "RTHI" => { let v = r.f32(); b.extend(f((v))); x.refraction_thickness = Some(v); draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Primitive() -> primitive::Primitive { let mut x = primitive::Primitive::default(); x }
pub fn random_Primitive(r: &mut Rng) -> primitive::Primitive {
    let mut x = primitive::Primitive::default();
    let dense = r.below(4);
    for t in ["VPOS", "VSIZ", "RTV0", "RTV1", "RTV2", "RTV3", "RTV4", "RTV5", "RTV6", "RTV7", "RTV8", "IMAG", "NRMA", "SIDS", "NAME", "MATR", "SCOL", "TVIS", "DTXI", "HTEV", "THRS", "ELAS", "ELFO", "RFCT", "RSCT", "EFUI", "CORF", "CLDR", "ISTO", "U3DM", "STRE", "DILI", "DILT", "DILB", "REEN", "EBFC", "MAPH", "OVPH", "DIPT", "OSNM", "BMIN", "BMAX", "M3DN", "M3VN", "M3CY", "M3CX", "M3FN", "M3CJ", "M3CI", "PIDB", "ADDB", "ZMSK", "FALP", "COLR", "LMAP", "REFL", "RSTR", "REFR", "RTHI", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Primitive(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    if r.chance(3) { x.normal_map = None; }
    if r.chance(3) { x.collision_reduction_factor = None; }
    if r.chance(3) { x.disable_lighting_top_old = None; }
    if r.chance(3) { x.disable_lighting_top = None; }
    if r.chance(3) { x.disable_lighting_below = None; }
    if r.chance(3) { x.is_reflection_enabled = None; }
    if r.chance(3) { x.backfaces_enabled = None; }
    if r.chance(3) { x.physics_material = None; }
    if r.chance(3) { x.overwrite_physics = None; }
    if r.chance(3) { x.display_texture = None; }
    if r.chance(3) { x.object_space_normal_map = None; }
    if r.chance(3) { x.min_aa_bound = None; }
    if r.chance(3) { x.max_aa_bound = None; }
    if r.chance(3) { x.mesh_file_name = None; }
    if r.chance(3) { x.num_vertices = None; }
    if r.chance(3) { x.compressed_vertices_len = None; }
    if r.chance(3) { x.compressed_vertices_data = None; }
    if r.chance(3) { x.num_indices = None; }
    if r.chance(3) { x.compressed_indices_len = None; }
    if r.chance(3) { x.compressed_indices_data = None; }
    if r.chance(3) { x.compressed_animation_vertices_len = None; }
    if r.chance(3) { x.compressed_animation_vertices_data = None; }
    if r.chance(3) { x.add_blend = None; }
    if r.chance(3) { x.use_depth_mask = None; }
    if r.chance(3) { x.alpha = None; }
    if r.chance(3) { x.color = None; }
    if r.chance(3) { x.light_map = None; }
    if r.chance(3) { x.reflection_probe = None; }
    if r.chance(3) { x.reflection_strength = None; }
    if r.chance(3) { x.refraction_probe = None; }
    if r.chance(3) { x.refraction_thickness = None; }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x.compressed_animation_vertices_len = None;
    x.compressed_animation_vertices_data = None;
    if r.bool() { let n = r.range(1, 4);
        x.compressed_animation_vertices_len = Some((0..n).map(|_| r.u32()).collect());
        x.compressed_animation_vertices_data = Some((0..n).map(|_| r.bytes(40)).collect());
    }
    x
}
pub fn same_Primitive(what: &str, got: &primitive::Primitive, want: &primitive::Primitive) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- Ramp
pub const RAMP_TAGS: &[&str] = &["HTBT", "HTTP", "WDBT", "WDTP", "MATR", "TYPE", "NAME", "IMAG", "ALGN", "IMGW", "WLHL", "WLHR", "WVHL", "WVHR", "HTEV", "THRS", "ELAS", "RFCT", "RSCT", "CLDR", "RVIS", "RADB", "RADI", "RADX", "RADY", "REEN", "MAPH", "OVPH", "PNTS", "DPNT", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_Ramp(x: &ramp::Ramp) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("HTBT".into(), rec("HTBT", &f((x.height_bottom)))));
    o.push(("HTTP".into(), rec("HTTP", &f((x.height_top)))));
    o.push(("WDBT".into(), rec("WDBT", &f((x.width_bottom)))));
    o.push(("WDTP".into(), rec("WDTP", &f((x.width_top)))));
    o.push(("MATR".into(), rec("MATR", &str8(&x.material))));
    o.push(("TYPE".into(), rec("TYPE", &enc_RampType(&x.ramp_type))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("IMAG".into(), rec("IMAG", &str8(&x.image))));
    o.push(("ALGN".into(), rec("ALGN", &enc_RampImageAlignment(&x.image_alignment))));
    o.push(("IMGW".into(), rec("IMGW", &b32(x.image_walls))));
    o.push(("WLHL".into(), rec("WLHL", &f((x.left_wall_height)))));
    o.push(("WLHR".into(), rec("WLHR", &f((x.right_wall_height)))));
    o.push(("WVHL".into(), rec("WVHL", &f((x.left_wall_height_visible)))));
    o.push(("WVHR".into(), rec("WVHR", &f((x.right_wall_height_visible)))));
    if let Some(v) = &x.hit_event { o.push(("HTEV".into(), rec("HTEV", &b32(*v)))); }
    if let Some(v) = &x.threshold { o.push(("THRS".into(), rec("THRS", &f((*v))))); }
    o.push(("ELAS".into(), rec("ELAS", &f((x.elasticity)))));
    o.push(("RFCT".into(), rec("RFCT", &f((x.friction)))));
    o.push(("RSCT".into(), rec("RSCT", &f((x.scatter)))));
    o.push(("CLDR".into(), rec("CLDR", &b32(x.is_collidable))));
    o.push(("RVIS".into(), rec("RVIS", &b32(x.is_visible))));
    o.push(("RADB".into(), rec("RADB", &f((x.depth_bias)))));
    o.push(("RADI".into(), rec("RADI", &f((x.wire_diameter)))));
    o.push(("RADX".into(), rec("RADX", &f((x.wire_distance_x)))));
    o.push(("RADY".into(), rec("RADY", &f((x.wire_distance_y)))));
    if let Some(v) = &x.is_reflection_enabled { o.push(("REEN".into(), rec("REEN", &b32(*v)))); }
    if let Some(v) = &x.physics_material { o.push(("MAPH".into(), rec("MAPH", &str8(&v)))); }
    if let Some(v) = &x.overwrite_physics { o.push(("OVPH".into(), rec("OVPH", &b32(*v)))); }
    o.push(("PNTS".into(), rec("PNTS", &[])));
    for p in &x.drag_points { o.push(("DPNT".into(), [rec("DPNT", &[]), draw::concat(records_DragPoint(p)), endb()].concat())); }
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_Ramp(t: &str, x: &mut ramp::Ramp, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "HTBT" => { let v = r.f32(); b.extend(f((v))); x.height_bottom = v; draw::trail(&mut b, r); }
        "HTTP" => { let v = r.f32(); b.extend(f((v))); x.height_top = v; draw::trail(&mut b, r); }
        "WDBT" => { let v = r.f32(); b.extend(f((v))); x.width_bottom = v; draw::trail(&mut b, r); }
        "WDTP" => { let v = r.f32(); b.extend(f((v))); x.width_top = v; draw::trail(&mut b, r); }
        "MATR" => { let (v, e) = draw::string(r); b.extend(e); x.material = v; draw::trail(&mut b, r); }
        "TYPE" => { let (v, e) = draw_RampType(r); b.extend(le32(e)); x.ramp_type = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "IMAG" => { let (v, e) = draw::string(r); b.extend(e); x.image = v; draw::trail(&mut b, r); }
        "ALGN" => { let (v, e) = draw_RampImageAlignment(r); b.extend(le32(e)); x.image_alignment = v; draw::trail(&mut b, r); }
        "IMGW" => { let (v, e) = draw::boolean(r); b.extend(e); x.image_walls = v; draw::trail(&mut b, r); }
        "WLHL" => { let v = r.f32(); b.extend(f((v))); x.left_wall_height = v; draw::trail(&mut b, r); }
        "WLHR" => { let v = r.f32(); b.extend(f((v))); x.right_wall_height = v; draw::trail(&mut b, r); }
        "WVHL" => { let v = r.f32(); b.extend(f((v))); x.left_wall_height_visible = v; draw::trail(&mut b, r); }
        "WVHR" => { let v = r.f32(); b.extend(f((v))); x.right_wall_height_visible = v; draw::trail(&mut b, r); }
        "HTEV" => { let (v, e) = draw::boolean(r); b.extend(e); x.hit_event = Some(v); draw::trail(&mut b, r); }
        "THRS" => { let v = r.f32(); b.extend(f((v))); x.threshold = Some(v); draw::trail(&mut b, r); }
        "ELAS" => { let v = r.f32(); b.extend(f((v))); x.elasticity = v; draw::trail(&mut b, r); }
        "RFCT" => { let v = r.f32(); b.extend(f((v))); x.friction = v; draw::trail(&mut b, r); }
        "RSCT" => { let v = r.f32(); b.extend(f((v))); x.scatter = v; draw::trail(&mut b, r); }
        "CLDR" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_collidable = v; draw::trail(&mut b, r); }
        "RVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_visible = v; draw::trail(&mut b, r); }
        "RADB" => { let v = r.f32(); b.extend(f((v))); x.depth_bias = v; draw::trail(&mut b, r); }
        "RADI" => { let v = r.f32(); b.extend(f((v))); x.wire_diameter = v; draw::trail(&mut b, r); }
        "RADX" => { let v = r.f32(); b.extend(f((v))); x.wire_distance_x = v; draw::trail(&mut b, r); }
        "RADY" => { let v = r.f32(); b.extend(f((v))); x.wire_distance_y = v; draw::trail(&mut b, r); }
        "REEN" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_reflection_enabled = Some(v); draw::trail(&mut b, r); }
        "MAPH" => { let (v, e) = draw::string(r); b.extend(e); x.physics_material = Some(v); draw::trail(&mut b, r); }
        "OVPH" => { let (v, e) = draw::boolean(r); b.extend(e); x.overwrite_physics = Some(v); draw::trail(&mut b, r); }
        "PNTS" => {  draw::trail(&mut b, r); }
        "DPNT" => { let (p, e) = draw::drag_point(r); x.drag_points.push(p); return [rec("DPNT", &[]), e].concat(); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Ramp() -> ramp::Ramp { let mut x = ramp::Ramp::default(); x }
pub fn random_Ramp(r: &mut Rng) -> ramp::Ramp {
    let mut x = ramp::Ramp::default();
    let dense = r.below(4);
    for t in ["HTBT", "HTTP", "WDBT", "WDTP", "MATR", "TYPE", "NAME", "IMAG", "ALGN", "IMGW", "WLHL", "WLHR", "WVHL", "WVHR", "HTEV", "THRS", "ELAS", "RFCT", "RSCT", "CLDR", "RVIS", "RADB", "RADI", "RADX", "RADY", "REEN", "MAPH", "OVPH", "PNTS", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Ramp(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    for _ in 0..r.below(4) { x.drag_points.push(random_DragPoint(r)); }
    if r.chance(3) { x.hit_event = None; }
    if r.chance(3) { x.threshold = None; }
    if r.chance(3) { x.is_reflection_enabled = None; }
    if r.chance(3) { x.physics_material = None; }
    if r.chance(3) { x.overwrite_physics = None; }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_Ramp(what: &str, got: &ramp::Ramp, want: &ramp::Ramp) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- Reel
pub const REEL_TAGS: &[&str] = &["VER1", "VER2", "CLRB", "TRNS", "IMAG", "SOUN", "NAME", "WDTH", "HIGH", "RCNT", "RSPC", "MSTP", "RANG", "UPTM", "UGRD", "VISI", "GIPR", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_Reel(x: &reel::Reel) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("VER1".into(), rec("VER1", &draw::v2_bytes(&x.ver1))));
    o.push(("VER2".into(), rec("VER2", &draw::v2_bytes(&x.ver2))));
    o.push(("CLRB".into(), rec("CLRB", &draw::color_bytes(&x.back_color))));
    o.push(("TRNS".into(), rec("TRNS", &b32(x.is_transparent))));
    o.push(("IMAG".into(), rec("IMAG", &str8(&x.image))));
    o.push(("SOUN".into(), rec("SOUN", &str8(&x.sound))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("WDTH".into(), rec("WDTH", &f((x.width)))));
    o.push(("HIGH".into(), rec("HIGH", &f((x.height)))));
    o.push(("RCNT".into(), rec("RCNT", &f((x.reel_count)))));
    o.push(("RSPC".into(), rec("RSPC", &f((x.reel_spacing)))));
    o.push(("MSTP".into(), rec("MSTP", &f((x.motor_steps)))));
    o.push(("RANG".into(), rec("RANG", &f((x.digit_range)))));
    o.push(("UPTM".into(), rec("UPTM", &le32((x.update_interval)))));
    o.push(("UGRD".into(), rec("UGRD", &b32(x.use_image_grid))));
    o.push(("VISI".into(), rec("VISI", &b32(x.is_visible))));
    o.push(("GIPR".into(), rec("GIPR", &le32((x.images_per_grid_row)))));
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_Reel(t: &str, x: &mut reel::Reel, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "VER1" => { let v = Vertex2D { x: r.f32(), y: r.f32() }; b.extend(draw::v2_bytes(&v)); x.ver1 = v; draw::trail(&mut b, r); }
        "VER2" => { let v = Vertex2D { x: r.f32(), y: r.f32() }; b.extend(draw::v2_bytes(&v)); x.ver2 = v; draw::trail(&mut b, r); }
        "CLRB" => { let (v, e) = draw::color(r); b.extend(e); x.back_color = v; draw::trail(&mut b, r); }
        "TRNS" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_transparent = v; draw::trail(&mut b, r); }
        "IMAG" => { let (v, e) = draw::string(r); b.extend(e); x.image = v; draw::trail(&mut b, r); }
        "SOUN" => { let (v, e) = draw::string(r); b.extend(e); x.sound = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "WDTH" => { let v = r.f32(); b.extend(f((v))); x.width = v; draw::trail(&mut b, r); }
        "HIGH" => { let v = r.f32(); b.extend(f((v))); x.height = v; draw::trail(&mut b, r); }
        "RCNT" => { let v = r.f32(); b.extend(f((v))); x.reel_count = v; draw::trail(&mut b, r); }
        "RSPC" => { let v = r.f32(); b.extend(f((v))); x.reel_spacing = v; draw::trail(&mut b, r); }
        "MSTP" => { let v = r.f32(); b.extend(f((v))); x.motor_steps = v; draw::trail(&mut b, r); }
        "RANG" => { let v = r.f32(); b.extend(f((v))); x.digit_range = v; draw::trail(&mut b, r); }
        "UPTM" => { let v = r.u32(); b.extend(le32((v))); x.update_interval = v; draw::trail(&mut b, r); }
        "UGRD" => { let (v, e) = draw::boolean(r); b.extend(e); x.use_image_grid = v; draw::trail(&mut b, r); }
        "VISI" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_visible = v; draw::trail(&mut b, r); }
        "GIPR" => { let v = r.u32(); b.extend(le32((v))); x.images_per_grid_row = v; draw::trail(&mut b, r); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Reel() -> reel::Reel { let mut x = reel::Reel::default(); x }
pub fn random_Reel(r: &mut Rng) -> reel::Reel {
    let mut x = reel::Reel::default();
    let dense = r.below(4);
    for t in ["VER1", "VER2", "CLRB", "TRNS", "IMAG", "SOUN", "NAME", "WDTH", "HIGH", "RCNT", "RSPC", "MSTP", "RANG", "UPTM", "UGRD", "VISI", "GIPR", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Reel(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_Reel(what: &str, got: &reel::Reel, want: &reel::Reel) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- Rubber
pub const RUBBER_TAGS: &[&str] = &["HTTP", "HTHI", "WDTP", "HTEV", "MATR", "NAME", "IMAG", "ELAS", "ELFO", "RFCT", "RSCT", "CLDR", "RVIS", "RADB", "ESTR", "ESIE", "ROTX", "ROTY", "ROTZ", "REEN", "MAPH", "OVPH", "PNTS", "DPNT", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_Rubber(x: &rubber::Rubber) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("HTTP".into(), rec("HTTP", &f((x.height)))));
    if let Some(v) = &x.hit_height { o.push(("HTHI".into(), rec("HTHI", &f((*v))))); }
    o.push(("WDTP".into(), rec("WDTP", &le32((x.thickness) as u32))));
    o.push(("HTEV".into(), rec("HTEV", &b32(x.hit_event))));
    o.push(("MATR".into(), rec("MATR", &str8(&x.material))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("IMAG".into(), rec("IMAG", &str8(&x.image))));
    o.push(("ELAS".into(), rec("ELAS", &f((x.elasticity)))));
    o.push(("ELFO".into(), rec("ELFO", &f((x.elasticity_falloff)))));
    o.push(("RFCT".into(), rec("RFCT", &f((x.friction)))));
    o.push(("RSCT".into(), rec("RSCT", &f((x.scatter)))));
    o.push(("CLDR".into(), rec("CLDR", &b32(x.is_collidable))));
    o.push(("RVIS".into(), rec("RVIS", &b32(x.is_visible))));
    if let Some(v) = &x.radb { o.push(("RADB".into(), rec("RADB", &f((*v))))); }
    o.push(("ESTR".into(), rec("ESTR", &b32(x.static_rendering))));
    o.push(("ESIE".into(), rec("ESIE", &b32(x.show_in_editor))));
    o.push(("ROTX".into(), rec("ROTX", &f((x.rot_x)))));
    o.push(("ROTY".into(), rec("ROTY", &f((x.rot_y)))));
    o.push(("ROTZ".into(), rec("ROTZ", &f((x.rot_z)))));
    if let Some(v) = &x.is_reflection_enabled { o.push(("REEN".into(), rec("REEN", &b32(*v)))); }
    if let Some(v) = &x.physics_material { o.push(("MAPH".into(), rec("MAPH", &str8(&v)))); }
    if let Some(v) = &x.overwrite_physics { o.push(("OVPH".into(), rec("OVPH", &b32(*v)))); }
    o.push(("PNTS".into(), rec("PNTS", &[])));
    for p in &x.drag_points { o.push(("DPNT".into(), [rec("DPNT", &[]), draw::concat(records_DragPoint(p)), endb()].concat())); }
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_Rubber(t: &str, x: &mut rubber::Rubber, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "HTTP" => { let v = r.f32(); b.extend(f((v))); x.height = v; draw::trail(&mut b, r); }
        "HTHI" => { let v = r.f32(); b.extend(f((v))); x.hit_height = Some(v); draw::trail(&mut b, r); }
        "WDTP" => { let v = r.i32(); b.extend(le32((v) as u32)); x.thickness = v; draw::trail(&mut b, r); }
        "HTEV" => { let (v, e) = draw::boolean(r); b.extend(e); x.hit_event = v; draw::trail(&mut b, r); }
        "MATR" => { let (v, e) = draw::string(r); b.extend(e); x.material = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "IMAG" => { let (v, e) = draw::string(r); b.extend(e); x.image = v; draw::trail(&mut b, r); }
        "ELAS" => { let v = r.f32(); b.extend(f((v))); x.elasticity = v; draw::trail(&mut b, r); }
        "ELFO" => { let v = r.f32(); b.extend(f((v))); x.elasticity_falloff = v; draw::trail(&mut b, r); }
        "RFCT" => { let v = r.f32(); b.extend(f((v))); x.friction = v; draw::trail(&mut b, r); }
        "RSCT" => { let v = r.f32(); b.extend(f((v))); x.scatter = v; draw::trail(&mut b, r); }
        "CLDR" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_collidable = v; draw::trail(&mut b, r); }
        "RVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_visible = v; draw::trail(&mut b, r); }
        "RADB" => { let v = r.f32(); b.extend(f((v))); x.radb = Some(v); draw::trail(&mut b, r); }
        "ESTR" => { let (v, e) = draw::boolean(r); b.extend(e); x.static_rendering = v; draw::trail(&mut b, r); }
        "ESIE" => { let (v, e) = draw::boolean(r); b.extend(e); x.show_in_editor = v; draw::trail(&mut b, r); }
        "ROTX" => { let v = r.f32(); b.extend(f((v))); x.rot_x = v; draw::trail(&mut b, r); }
        "ROTY" => { let v = r.f32(); b.extend(f((v))); x.rot_y = v; draw::trail(&mut b, r); }
        "ROTZ" => { let v = r.f32(); b.extend(f((v))); x.rot_z = v; draw::trail(&mut b, r); }
        "REEN" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_reflection_enabled = Some(v); draw::trail(&mut b, r); }
        "MAPH" => { let (v, e) = draw::string(r); b.extend(e); x.physics_material = Some(v); draw::trail(&mut b, r); }
        "OVPH" => { let (v, e) = draw::boolean(r); b.extend(e); x.overwrite_physics = Some(v); draw::trail(&mut b, r); }
        "PNTS" => {  draw::trail(&mut b, r); }
        "DPNT" => { let (p, e) = draw::drag_point(r); x.drag_points.push(p); return [rec("DPNT", &[]), e].concat(); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Rubber() -> rubber::Rubber { let mut x = rubber::Rubber::default(); x }
pub fn random_Rubber(r: &mut Rng) -> rubber::Rubber {
    let mut x = rubber::Rubber::default();
    let dense = r.below(4);
    for t in ["HTTP", "HTHI", "WDTP", "HTEV", "MATR", "NAME", "IMAG", "ELAS", "ELFO", "RFCT", "RSCT", "CLDR", "RVIS", "RADB", "ESTR", "ESIE", "ROTX", "ROTY", "ROTZ", "REEN", "MAPH", "OVPH", "PNTS", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Rubber(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    for _ in 0..r.below(4) { x.drag_points.push(random_DragPoint(r)); }
    if r.chance(3) { x.hit_height = None; }
    if r.chance(3) { x.radb = None; }
    if r.chance(3) { x.is_reflection_enabled = None; }
    if r.chance(3) { x.physics_material = None; }
    if r.chance(3) { x.overwrite_physics = None; }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_Rubber(what: &str, got: &rubber::Rubber, want: &rubber::Rubber) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- Spinner
pub const SPINNER_TAGS: &[&str] = &["VCEN", "ROTA", "HIGH", "LGTH", "AFRC", "SMAX", "SMIN", "SELA", "SVIS", "SSUP", "MATR", "IMGF", "SURF", "NAME", "REEN", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_Spinner(x: &spinner::Spinner) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("VCEN".into(), rec("VCEN", &draw::v2_bytes(&x.center))));
    o.push(("ROTA".into(), rec("ROTA", &f((x.rotation)))));
    o.push(("HIGH".into(), rec("HIGH", &f((x.height)))));
    o.push(("LGTH".into(), rec("LGTH", &f((x.length)))));
    o.push(("AFRC".into(), rec("AFRC", &f((x.damping)))));
    o.push(("SMAX".into(), rec("SMAX", &f((x.angle_max)))));
    o.push(("SMIN".into(), rec("SMIN", &f((x.angle_min)))));
    o.push(("SELA".into(), rec("SELA", &f((x.elasticity)))));
    o.push(("SVIS".into(), rec("SVIS", &b32(x.is_visible))));
    o.push(("SSUP".into(), rec("SSUP", &b32(x.show_bracket))));
    o.push(("MATR".into(), rec("MATR", &str8(&x.material))));
    o.push(("IMGF".into(), rec("IMGF", &str8(&x.image))));
    o.push(("SURF".into(), rec("SURF", &str8(&x.surface))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    if let Some(v) = &x.is_reflection_enabled { o.push(("REEN".into(), rec("REEN", &b32(*v)))); }
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_Spinner(t: &str, x: &mut spinner::Spinner, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "VCEN" => { let v = Vertex2D { x: r.f32(), y: r.f32() }; b.extend(draw::v2_bytes(&v)); x.center = v; draw::trail(&mut b, r); }
        "ROTA" => { let v = r.f32(); b.extend(f((v))); x.rotation = v; draw::trail(&mut b, r); }
        "HIGH" => { let v = r.f32(); b.extend(f((v))); x.height = v; draw::trail(&mut b, r); }
        "LGTH" => { let v = r.f32(); b.extend(f((v))); x.length = v; draw::trail(&mut b, r); }
        "AFRC" => { let v = r.f32(); b.extend(f((v))); x.damping = v; draw::trail(&mut b, r); }
        "SMAX" => { let v = r.f32(); b.extend(f((v))); x.angle_max = v; draw::trail(&mut b, r); }
        "SMIN" => { let v = r.f32(); b.extend(f((v))); x.angle_min = v; draw::trail(&mut b, r); }
        "SELA" => { let v = r.f32(); b.extend(f((v))); x.elasticity = v; draw::trail(&mut b, r); }
        "SVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_visible = v; draw::trail(&mut b, r); }
        "SSUP" => { let (v, e) = draw::boolean(r); b.extend(e); x.show_bracket = v; draw::trail(&mut b, r); }
        "MATR" => { let (v, e) = draw::string(r); b.extend(e); x.material = v; draw::trail(&mut b, r); }
        "IMGF" => { let (v, e) = draw::string(r); b.extend(e); x.image = v; draw::trail(&mut b, r); }
        "SURF" => { let (v, e) = draw::string(r); b.extend(e); x.surface = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "REEN" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_reflection_enabled = Some(v); draw::trail(&mut b, r); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Spinner() -> spinner::Spinner { let mut x = spinner::Spinner::default(); x }
pub fn random_Spinner(r: &mut Rng) -> spinner::Spinner {
    let mut x = spinner::Spinner::default();
    let dense = r.below(4);
    for t in ["VCEN", "ROTA", "HIGH", "LGTH", "AFRC", "SMAX", "SMIN", "SELA", "SVIS", "SSUP", "MATR", "IMGF", "SURF", "NAME", "REEN", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Spinner(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    if r.chance(3) { x.is_reflection_enabled = None; }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_Spinner(what: &str, got: &spinner::Spinner, want: &spinner::Spinner) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- TextBox
pub const TEXTBOX_TAGS: &[&str] = &["VER1", "VER2", "CLRB", "CLRF", "INSC", "TEXT", "NAME", "ALGN", "TRNS", "IDMD", "FONT", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_TextBox(x: &textbox::TextBox) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("VER1".into(), rec("VER1", &draw::v2_bytes(&x.ver1))));
    o.push(("VER2".into(), rec("VER2", &draw::v2_bytes(&x.ver2))));
    o.push(("CLRB".into(), rec("CLRB", &draw::color_bytes(&x.back_color))));
    o.push(("CLRF".into(), rec("CLRF", &draw::color_bytes(&x.font_color))));
    o.push(("INSC".into(), rec("INSC", &f((x.intensity_scale)))));
    o.push(("TEXT".into(), rec("TEXT", &str8(&x.text))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("ALGN".into(), rec("ALGN", &enc_TextAlignment(&x.align))));
    o.push(("TRNS".into(), rec("TRNS", &b32(x.is_transparent))));
    if let Some(v) = &x.is_dmd { o.push(("IDMD".into(), rec("IDMD", &b32(*v)))); }
    o.push(("FONT".into(), rec4("FONT", &draw::font_bytes(&x.font))));
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_TextBox(t: &str, x: &mut textbox::TextBox, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "VER1" => { let v = Vertex2D { x: r.f32(), y: r.f32() }; b.extend(draw::v2_bytes(&v)); x.ver1 = v; draw::trail(&mut b, r); }
        "VER2" => { let v = Vertex2D { x: r.f32(), y: r.f32() }; b.extend(draw::v2_bytes(&v)); x.ver2 = v; draw::trail(&mut b, r); }
        "CLRB" => { let (v, e) = draw::color(r); b.extend(e); x.back_color = v; draw::trail(&mut b, r); }
        "CLRF" => { let (v, e) = draw::color(r); b.extend(e); x.font_color = v; draw::trail(&mut b, r); }
        "INSC" => { let v = r.f32(); b.extend(f((v))); x.intensity_scale = v; draw::trail(&mut b, r); }
        "TEXT" => { let (v, e) = draw::string(r); b.extend(e); x.text = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "ALGN" => { let (v, e) = draw_TextAlignment(r); b.extend(le32(e)); x.align = v; draw::trail(&mut b, r); }
        "TRNS" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_transparent = v; draw::trail(&mut b, r); }
        "IDMD" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_dmd = Some(v); draw::trail(&mut b, r); }
        "FONT" => { let (v, e) = draw::font(r); x.font = v; return rec4("FONT", &e); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_TextBox() -> textbox::TextBox { let mut x = textbox::TextBox::default(); x }
pub fn random_TextBox(r: &mut Rng) -> textbox::TextBox {
    let mut x = textbox::TextBox::default();
    let dense = r.below(4);
    for t in ["VER1", "VER2", "CLRB", "CLRF", "INSC", "TEXT", "NAME", "ALGN", "TRNS", "IDMD", "FONT", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_TextBox(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    if r.chance(3) { x.is_dmd = None; }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_TextBox(what: &str, got: &textbox::TextBox, want: &textbox::TextBox) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    Ok(())
}

// ---------------------------------------------------------------- Timer
pub const TIMER_TAGS: &[&str] = &["VCEN", "NAME", "BGLS", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_Timer(x: &timer::Timer) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("VCEN".into(), rec("VCEN", &draw::v2_bytes(&x.center))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("BGLS".into(), rec("BGLS", &b32(x.backglass))));
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_Timer(t: &str, x: &mut timer::Timer, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "VCEN" => { let v = Vertex2D { x: r.f32(), y: r.f32() }; b.extend(draw::v2_bytes(&v)); x.center = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "BGLS" => { let (v, e) = draw::boolean(r); b.extend(e); x.backglass = v; draw::trail(&mut b, r); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Timer() -> timer::Timer { let mut x = timer::Timer::default(); x }
pub fn random_Timer(r: &mut Rng) -> timer::Timer {
    let mut x = timer::Timer::default();
    let dense = r.below(4);
    for t in ["VCEN", "NAME", "BGLS", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Timer(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_Timer(what: &str, got: &timer::Timer, want: &timer::Timer) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- Trigger
pub const TRIGGER_TAGS: &[&str] = &["VCEN", "RADI", "ROTA", "WITI", "SCAX", "SCAY", "MATR", "SURF", "VSBL", "EBLD", "THOT", "NAME", "SHAP", "ANSP", "REEN", "DPNT", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_Trigger(x: &trigger::Trigger) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("VCEN".into(), rec("VCEN", &draw::v2_bytes(&x.center))));
    o.push(("RADI".into(), rec("RADI", &f((x.radius)))));
    o.push(("ROTA".into(), rec("ROTA", &f((x.rotation)))));
    if let Some(v) = &x.wire_thickness { o.push(("WITI".into(), rec("WITI", &f((*v))))); }
    o.push(("SCAX".into(), rec("SCAX", &f((x.scale_x)))));
    o.push(("SCAY".into(), rec("SCAY", &f((x.scale_y)))));
    o.push(("MATR".into(), rec("MATR", &str8(&x.material))));
    o.push(("SURF".into(), rec("SURF", &str8(&x.surface))));
    o.push(("VSBL".into(), rec("VSBL", &b32(x.is_visible))));
    o.push(("EBLD".into(), rec("EBLD", &b32(x.is_enabled))));
    o.push(("THOT".into(), rec("THOT", &f((x.hit_height)))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("SHAP".into(), rec("SHAP", &enc_TriggerShape(&x.shape))));
    o.push(("ANSP".into(), rec("ANSP", &f((x.anim_speed)))));
    if let Some(v) = &x.is_reflection_enabled { o.push(("REEN".into(), rec("REEN", &b32(*v)))); }
    for p in &x.drag_points { o.push(("DPNT".into(), [rec("DPNT", &[]), draw::concat(records_DragPoint(p)), endb()].concat())); }
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_Trigger(t: &str, x: &mut trigger::Trigger, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "VCEN" => { let v = Vertex2D { x: r.f32(), y: r.f32() }; b.extend(draw::v2_bytes(&v)); x.center = v; draw::trail(&mut b, r); }
        "RADI" => { let v = r.f32(); b.extend(f((v))); x.radius = v; draw::trail(&mut b, r); }
        "ROTA" => { let v = r.f32(); b.extend(f((v))); x.rotation = v; draw::trail(&mut b, r); }
        "WITI" => { let v = r.f32(); b.extend(f((v))); x.wire_thickness = Some(v); draw::trail(&mut b, r); }
        "SCAX" => { let v = r.f32(); b.extend(f((v))); x.scale_x = v; draw::trail(&mut b, r); }
        "SCAY" => { let v = r.f32(); b.extend(f((v))); x.scale_y = v; draw::trail(&mut b, r); }
        "MATR" => { let (v, e) = draw::string(r); b.extend(e); x.material = v; draw::trail(&mut b, r); }
        "SURF" => { let (v, e) = draw::string(r); b.extend(e); x.surface = v; draw::trail(&mut b, r); }
        "VSBL" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_visible = v; draw::trail(&mut b, r); }
        "EBLD" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_enabled = v; draw::trail(&mut b, r); }
        "THOT" => { let v = r.f32(); b.extend(f((v))); x.hit_height = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "SHAP" => { let (v, e) = draw_TriggerShape(r); b.extend(le32(e)); x.shape = v; draw::trail(&mut b, r); }
        "ANSP" => { let v = r.f32(); b.extend(f((v))); x.anim_speed = v; draw::trail(&mut b, r); }
        "REEN" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_reflection_enabled = Some(v); draw::trail(&mut b, r); }
        "DPNT" => { let (p, e) = draw::drag_point(r); x.drag_points.push(p); return [rec("DPNT", &[]), e].concat(); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Trigger() -> trigger::Trigger { let mut x = trigger::Trigger::default(); x }
pub fn random_Trigger(r: &mut Rng) -> trigger::Trigger {
    let mut x = trigger::Trigger::default();
    let dense = r.below(4);
    for t in ["VCEN", "RADI", "ROTA", "WITI", "SCAX", "SCAY", "MATR", "SURF", "VSBL", "EBLD", "THOT", "NAME", "SHAP", "ANSP", "REEN", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Trigger(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    for _ in 0..r.below(4) { x.drag_points.push(random_DragPoint(r)); }
    if r.chance(3) { x.wire_thickness = None; }
    if r.chance(3) { x.is_reflection_enabled = None; }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_Trigger(what: &str, got: &trigger::Trigger, want: &trigger::Trigger) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- Wall
pub const WALL_TAGS: &[&str] = &["HTEV", "DROP", "FLIP", "BOTS", "COLL", "THRS", "IMGF", "IMGS", "MATR", "MATP", "MATL", "HTBT", "NAME", "DTEX", "SLFO", "SLTH", "SLAN", "ELAS", "ELFO", "FRIC", "SCAT", "TBVI", "OVPH", "DLTO", "DLBE", "SIVI", "REFL", "TMRN", "PMAT", "ISBS", "CLDW", "VSBL", "SLGA", "SVBL", "DILI", "DILT", "DILB", "MAPH", "REEN", "IMAG", "SIMG", "SIMA", "TOMA", "SLMA", "HTTP", "DSPT", "SLGF", "WFCT", "WSCT", "PNTS", "DPNT", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"];
pub fn records_Wall(x: &wall::Wall) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("HTEV".into(), rec("HTEV", &b32(x.hit_event))));
    o.push(("DROP".into(), rec("DROP", &b32(x.is_droppable))));
    o.push(("FLIP".into(), rec("FLIP", &b32(x.is_flipbook))));
    o.push(("THRS".into(), rec("THRS", &f((x.threshold)))));
    o.push(("HTBT".into(), rec("HTBT", &f((x.height_bottom)))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.push(("SLTH".into(), rec("SLTH", &f((x.slingshot_threshold)))));
    o.push(("ELAS".into(), rec("ELAS", &f((x.elasticity)))));
    if let Some(v) = &x.elasticity_falloff { o.push(("ELFO".into(), rec("ELFO", &f((*v))))); }
    if let Some(v) = &x.overwrite_physics { o.push(("OVPH".into(), rec("OVPH", &b32(*v)))); }
    o.push(("ISBS".into(), rec("ISBS", &b32(x.is_bottom_solid))));
    o.push(("CLDW".into(), rec("CLDW", &b32(x.is_collidable))));
    o.push(("VSBL".into(), rec("VSBL", &b32(x.is_top_bottom_visible))));
    o.push(("SLGA".into(), rec("SLGA", &b32(x.slingshot_animation))));
    o.push(("SVBL".into(), rec("SVBL", &b32(x.is_side_visible))));
    if let Some(v) = &x.disable_lighting_top_old { o.push(("DILI".into(), rec("DILI", &draw::q8_bytes(*v)))); }
    if let Some(v) = &x.disable_lighting_top { o.push(("DILT".into(), rec("DILT", &f((*v))))); }
    if let Some(v) = &x.disable_lighting_below { o.push(("DILB".into(), rec("DILB", &f((*v))))); }
    if let Some(v) = &x.physics_material { o.push(("MAPH".into(), rec("MAPH", &str8(&v)))); }
    if let Some(v) = &x.is_reflection_enabled { o.push(("REEN".into(), rec("REEN", &b32(*v)))); }
    o.push(("IMAG".into(), rec("IMAG", &str8(&x.image))));
    o.push(("SIMG".into(), rec("SIMG", &str8(&x.side_image))));
    o.push(("SIMA".into(), rec("SIMA", &str8(&x.side_material))));
    o.push(("TOMA".into(), rec("TOMA", &str8(&x.top_material))));
    o.push(("SLMA".into(), rec("SLMA", &str8(&x.slingshot_material))));
    o.push(("HTTP".into(), rec("HTTP", &f((x.height_top)))));
    o.push(("DSPT".into(), rec("DSPT", &b32(x.display_texture))));
    o.push(("SLGF".into(), rec("SLGF", &f((x.slingshot_force)))));
    o.push(("WFCT".into(), rec("WFCT", &f((x.friction)))));
    o.push(("WSCT".into(), rec("WSCT", &f((x.scatter)))));
    o.push(("PNTS".into(), rec("PNTS", &[])));
    for p in &x.drag_points { o.push(("DPNT".into(), [rec("DPNT", &[]), draw::concat(records_DragPoint(p)), endb()].concat())); }
    o.push(("TMON".into(), rec("TMON", &b32(x.timer.is_enabled))));
    o.push(("TMIN".into(), rec("TMIN", &le32((x.timer.interval) as u32))));
    o.push(("LOCK".into(), rec("LOCK", &b32(x.is_locked))));
    if let Some(v) = &x.editor_layer { o.push(("LAYR".into(), rec("LAYR", &le32((*v))))); }
    if let Some(v) = &x.editor_layer_name { o.push(("LANR".into(), rec("LANR", &str8(&v)))); }
    if let Some(v) = &x.part_group_name { o.push(("GRUP".into(), rec("GRUP", &str8(&v)))); }
    if let Some(v) = &x.editor_layer_visibility { o.push(("LVIS".into(), rec("LVIS", &b32(*v)))); }
    o
}
pub fn set_Wall(t: &str, x: &mut wall::Wall, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "HTEV" => { let (v, e) = draw::boolean(r); b.extend(e); x.hit_event = v; draw::trail(&mut b, r); }
        "DROP" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_droppable = v; draw::trail(&mut b, r); }
        "FLIP" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_flipbook = v; draw::trail(&mut b, r); }
        "BOTS" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_bottom_solid = v; draw::trail(&mut b, r); }
        "COLL" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_collidable = v; draw::trail(&mut b, r); }
        "THRS" => { let v = r.f32(); b.extend(f((v))); x.threshold = v; draw::trail(&mut b, r); }
        "IMGF" => { let (v, e) = draw::string(r); b.extend(e); x.image = v; draw::trail(&mut b, r); }
        "IMGS" => { let (v, e) = draw::string(r); b.extend(e); x.side_image = v; draw::trail(&mut b, r); }
        "MATR" => { let (v, e) = draw::string(r); b.extend(e); x.side_material = v; draw::trail(&mut b, r); }
        "MATP" => { let (v, e) = draw::string(r); b.extend(e); x.top_material = v; draw::trail(&mut b, r); }
        "MATL" => { let (v, e) = draw::string(r); b.extend(e); x.slingshot_material = v; draw::trail(&mut b, r); }
        "HTBT" => { let v = r.f32(); b.extend(f((v))); x.height_bottom = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "DTEX" => { let (v, e) = draw::boolean(r); b.extend(e); x.display_texture = v; draw::trail(&mut b, r); }
        "SLFO" => { let v = r.f32(); b.extend(f((v))); x.slingshot_force = v; draw::trail(&mut b, r); }
        "SLTH" => { let v = r.f32(); b.extend(f((v))); x.slingshot_threshold = v; draw::trail(&mut b, r); }
        "SLAN" => { let (v, e) = draw::boolean(r); b.extend(e); x.slingshot_animation = v; draw::trail(&mut b, r); }
        "ELAS" => { let v = r.f32(); b.extend(f((v))); x.elasticity = v; draw::trail(&mut b, r); }
        "ELFO" => { let v = r.f32(); b.extend(f((v))); x.elasticity_falloff = Some(v); draw::trail(&mut b, r); }
        "FRIC" => { let v = r.f32(); b.extend(f((v))); x.friction = v; draw::trail(&mut b, r); }
        "SCAT" => { let v = r.f32(); b.extend(f((v))); x.scatter = v; draw::trail(&mut b, r); }
        "TBVI" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_top_bottom_visible = v; draw::trail(&mut b, r); }
        "OVPH" => { let (v, e) = draw::boolean(r); b.extend(e); x.overwrite_physics = Some(v); draw::trail(&mut b, r); }
        "DLTO" => { let v = r.f32(); b.extend(f((v))); x.disable_lighting_top = Some(v); draw::trail(&mut b, r); }
        "DLBE" => { let v = r.f32(); b.extend(f((v))); x.disable_lighting_below = Some(v); draw::trail(&mut b, r); }
        "SIVI" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_side_visible = v; draw::trail(&mut b, r); }
        "REFL" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_reflection_enabled = Some(v); draw::trail(&mut b, r); }
        "TMRN" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "PMAT" => { let (v, e) = draw::string(r); b.extend(e); x.physics_material = Some(v); draw::trail(&mut b, r); }
        "ISBS" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_bottom_solid = v; draw::trail(&mut b, r); }
        "CLDW" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_collidable = v; draw::trail(&mut b, r); }
        "VSBL" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_top_bottom_visible = v; draw::trail(&mut b, r); }
        "SLGA" => { let (v, e) = draw::boolean(r); b.extend(e); x.slingshot_animation = v; draw::trail(&mut b, r); }
        "SVBL" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_side_visible = v; draw::trail(&mut b, r); }
        "DILI" => { let (v, e) = draw::q8(r); b.extend(e); x.disable_lighting_top_old = Some(v); draw::trail(&mut b, r); }
        "DILT" => { let v = r.f32(); b.extend(f((v))); x.disable_lighting_top = Some(v); draw::trail(&mut b, r); }
        "DILB" => { let v = r.f32(); b.extend(f((v))); x.disable_lighting_below = Some(v); draw::trail(&mut b, r); }
        "MAPH" => { let (v, e) = draw::string(r); b.extend(e); x.physics_material = Some(v); draw::trail(&mut b, r); }
        "REEN" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_reflection_enabled = Some(v); draw::trail(&mut b, r); }
        "IMAG" => { let (v, e) = draw::string(r); b.extend(e); x.image = v; draw::trail(&mut b, r); }
        "SIMG" => { let (v, e) = draw::string(r); b.extend(e); x.side_image = v; draw::trail(&mut b, r); }
        "SIMA" => { let (v, e) = draw::string(r); b.extend(e); x.side_material = v; draw::trail(&mut b, r); }
        "TOMA" => { let (v, e) = draw::string(r); b.extend(e); x.top_material = v; draw::trail(&mut b, r); }
        "SLMA" => { let (v, e) = draw::string(r); b.extend(e); x.slingshot_material = v; draw::trail(&mut b, r); }
        "HTTP" => { let v = r.f32(); b.extend(f((v))); x.height_top = v; draw::trail(&mut b, r); }
        "DSPT" => { let (v, e) = draw::boolean(r); b.extend(e); x.display_texture = v; draw::trail(&mut b, r); }
        "SLGF" => { let v = r.f32(); b.extend(f((v))); x.slingshot_force = v; draw::trail(&mut b, r); }
        "WFCT" => { let v = r.f32(); b.extend(f((v))); x.friction = v; draw::trail(&mut b, r); }
        "WSCT" => { let v = r.f32(); b.extend(f((v))); x.scatter = v; draw::trail(&mut b, r); }
        "PNTS" => {  draw::trail(&mut b, r); }
        "DPNT" => { let (p, e) = draw::drag_point(r); x.drag_points.push(p); return [rec("DPNT", &[]), e].concat(); }
        "TMON" => { let (v, e) = draw::boolean(r); b.extend(e); x.timer.is_enabled = v; draw::trail(&mut b, r); }
        "TMIN" => { let v = r.i32(); b.extend(le32((v) as u32)); x.timer.interval = v; draw::trail(&mut b, r); }
        "LOCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.is_locked = v; draw::trail(&mut b, r); }
        "LAYR" => { let v = r.u32(); b.extend(le32((v))); x.editor_layer = Some(v); draw::trail(&mut b, r); }
        "LANR" => { let (v, e) = draw::string(r); b.extend(e); x.editor_layer_name = Some(v); draw::trail(&mut b, r); }
        "GRUP" => { let (v, e) = draw::string(r); b.extend(e); x.part_group_name = Some(v); draw::trail(&mut b, r); }
        "LVIS" => { let (v, e) = draw::boolean(r); b.extend(e); x.editor_layer_visibility = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Wall() -> wall::Wall { let mut x = wall::Wall::default(); x }
pub fn random_Wall(r: &mut Rng) -> wall::Wall {
    let mut x = wall::Wall::default();
    let dense = r.below(4);
    for t in ["HTEV", "DROP", "FLIP", "BOTS", "COLL", "THRS", "IMGF", "IMGS", "MATR", "MATP", "MATL", "HTBT", "NAME", "DTEX", "SLFO", "SLTH", "SLAN", "ELAS", "ELFO", "FRIC", "SCAT", "TBVI", "OVPH", "DLTO", "DLBE", "SIVI", "REFL", "TMRN", "PMAT", "ISBS", "CLDW", "VSBL", "SLGA", "SVBL", "DILI", "DILT", "DILB", "MAPH", "REEN", "IMAG", "SIMG", "SIMA", "TOMA", "SLMA", "HTTP", "DSPT", "SLGF", "WFCT", "WSCT", "PNTS", "TMON", "TMIN", "LOCK", "LAYR", "LANR", "GRUP", "LVIS"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Wall(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    for _ in 0..r.below(4) { x.drag_points.push(random_DragPoint(r)); }
    if r.chance(3) { x.elasticity_falloff = None; }
    if r.chance(3) { x.disable_lighting_top_old = None; }
    if r.chance(3) { x.disable_lighting_top = None; }
    if r.chance(3) { x.disable_lighting_below = None; }
    if r.chance(3) { x.is_reflection_enabled = None; }
    if r.chance(3) { x.physics_material = None; }
    if r.chance(3) { x.overwrite_physics = None; }
    if r.chance(3) { x.editor_layer = None; }
    if r.chance(3) { x.editor_layer_name = None; }
    if r.chance(3) { x.editor_layer_visibility = None; }
    if r.chance(3) { x.part_group_name = None; }
    x
}
pub fn same_Wall(what: &str, got: &wall::Wall, want: &wall::Wall) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- GameData
pub const GAMEDATA_TAGS: &[&str] = &["LEFT", "TOPX", "RGHT", "BOTM", "CLMO", "EFSS", "VSM0", "ROTA", "INCL", "LAYB", "FOVX", "XLTX", "XLTY", "XLTZ", "SCLX", "SCLY", "SCLZ", "HOF0", "VOF0", "WTX0", "WTY0", "WTZ0", "WBX0", "WBY0", "WBZ0", "VSM1", "ROTF", "INCF", "LAYF", "FOVF", "XLFX", "XLFY", "XLFZ", "SCFX", "SCFY", "SCFZ", "HOF1", "VOF1", "WTX1", "WTY1", "WTZ1", "WBX1", "WBY1", "WBZ1", "VSM2", "ROFS", "INFS", "LAFS", "FOFS", "XLXS", "XLYS", "XLZS", "SCXS", "SCYS", "SCZS", "HOF2", "VOF2", "WTX2", "WTY2", "WTZ2", "WBX2", "WBY2", "WBZ2", "ORRP", "ORPF", "GAVT", "FRCT", "ELAS", "ELFA", "PFSC", "SCAT", "NDGT", "MPGC", "MPDF", "PHML", "REEL", "DECL", "OFFX", "OFFY", "ZOOM", "SLPX", "SLOP", "MAXS", "ZPD", "STO", "OGST", "IMAG", "BIMG", "BIMF", "BIMS", "BIMN", "IMCG", "BLIM", "BLSM", "BLIF", "EIMG", "NOTX", "SSHT", "FBCK", "GLAS", "GLAB", "TBLH", "PLMA", "BCLR", "TDFT", "LZAM", "LZDI", "LZHI", "LZRA", "LIES", "ENES", "GLES", "AOSC", "SSSC", "CLBH", "SVOL", "MVOL", "AVSY", "BREF", "BRST", "PLST", "BTRA", "BDMO", "BPRS", "DBIS", "BTST", "ARAC", "OGAC", "OGDN", "GDAC", "REOP", "UAAL", "UFXA", "UAOC", "USSR", "TMAP", "EXPO", "BLST", "MASI", "MATE", "PHMA", "MATR", "RPRB", "SEDT", "SSND", "SIMG", "SFNT", "SCOL", "NAME", "CCUS", "SECB", "CODE", "TLCK"];
pub fn records_GameData(x: &vpin::vpx::gamedata::GameData) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("LEFT".into(), rec("LEFT", &f((x.left)))));
    o.push(("TOPX".into(), rec("TOPX", &f((x.top)))));
    o.push(("RGHT".into(), rec("RGHT", &f((x.right)))));
    o.push(("BOTM".into(), rec("BOTM", &f((x.bottom)))));
    if let Some(v) = &x.camera_layout_mode { o.push(("CLMO".into(), rec("CLMO", &le32((*v))))); }
    o.extend(crate::data::GameData_special("EFSS", x));
    if let Some(v) = &x.bg_view_mode_desktop { o.push(("VSM0".into(), rec("VSM0", &enc_ViewLayoutMode(&v)))); }
    o.push(("ROTA".into(), rec("ROTA", &f((x.bg_rotation_desktop)))));
    o.push(("INCL".into(), rec("INCL", &f((x.bg_inclination_desktop)))));
    o.push(("LAYB".into(), rec("LAYB", &f((x.bg_layback_desktop)))));
    o.push(("FOVX".into(), rec("FOVX", &f((x.bg_fov_desktop)))));
    o.push(("XLTX".into(), rec("XLTX", &f((x.bg_offset_x_desktop)))));
    o.push(("XLTY".into(), rec("XLTY", &f((x.bg_offset_y_desktop)))));
    o.push(("XLTZ".into(), rec("XLTZ", &f((x.bg_offset_z_desktop)))));
    o.push(("SCLX".into(), rec("SCLX", &f((x.bg_scale_x_desktop)))));
    o.push(("SCLY".into(), rec("SCLY", &f((x.bg_scale_y_desktop)))));
    o.push(("SCLZ".into(), rec("SCLZ", &f((x.bg_scale_z_desktop)))));
    if let Some(v) = &x.bg_view_horizontal_offset_desktop { o.push(("HOF0".into(), rec("HOF0", &f((*v))))); }
    if let Some(v) = &x.bg_view_vertical_offset_desktop { o.push(("VOF0".into(), rec("VOF0", &f((*v))))); }
    if let Some(v) = &x.bg_window_top_x_offset_desktop { o.push(("WTX0".into(), rec("WTX0", &f((*v))))); }
    if let Some(v) = &x.bg_window_top_y_offset_desktop { o.push(("WTY0".into(), rec("WTY0", &f((*v))))); }
    if let Some(v) = &x.bg_window_top_z_offset_desktop { o.push(("WTZ0".into(), rec("WTZ0", &f((*v))))); }
    if let Some(v) = &x.bg_window_bottom_x_offset_desktop { o.push(("WBX0".into(), rec("WBX0", &f((*v))))); }
    if let Some(v) = &x.bg_window_bottom_y_offset_desktop { o.push(("WBY0".into(), rec("WBY0", &f((*v))))); }
    if let Some(v) = &x.bg_window_bottom_z_offset_desktop { o.push(("WBZ0".into(), rec("WBZ0", &f((*v))))); }
    if let Some(v) = &x.bg_view_mode_fullscreen { o.push(("VSM1".into(), rec("VSM1", &enc_ViewLayoutMode(&v)))); }
    o.extend(crate::data::GameData_special("EFSS after VSM1", x));
    o.push(("ROTF".into(), rec("ROTF", &f((x.bg_rotation_fullscreen)))));
    o.push(("INCF".into(), rec("INCF", &f((x.bg_inclination_fullscreen)))));
    o.push(("LAYF".into(), rec("LAYF", &f((x.bg_layback_fullscreen)))));
    o.push(("FOVF".into(), rec("FOVF", &f((x.bg_fov_fullscreen)))));
    o.push(("XLFX".into(), rec("XLFX", &f((x.bg_offset_x_fullscreen)))));
    o.push(("XLFY".into(), rec("XLFY", &f((x.bg_offset_y_fullscreen)))));
    o.push(("XLFZ".into(), rec("XLFZ", &f((x.bg_offset_z_fullscreen)))));
    o.push(("SCFX".into(), rec("SCFX", &f((x.bg_scale_x_fullscreen)))));
    o.push(("SCFY".into(), rec("SCFY", &f((x.bg_scale_y_fullscreen)))));
    o.push(("SCFZ".into(), rec("SCFZ", &f((x.bg_scale_z_fullscreen)))));
    if let Some(v) = &x.bg_view_horizontal_offset_fullscreen { o.push(("HOF1".into(), rec("HOF1", &f((*v))))); }
    if let Some(v) = &x.bg_view_vertical_offset_fullscreen { o.push(("VOF1".into(), rec("VOF1", &f((*v))))); }
    if let Some(v) = &x.bg_window_top_x_offset_fullscreen { o.push(("WTX1".into(), rec("WTX1", &f((*v))))); }
    if let Some(v) = &x.bg_window_top_y_offset_fullscreen { o.push(("WTY1".into(), rec("WTY1", &f((*v))))); }
    if let Some(v) = &x.bg_window_top_z_offset_fullscreen { o.push(("WTZ1".into(), rec("WTZ1", &f((*v))))); }
    if let Some(v) = &x.bg_window_bottom_x_offset_fullscreen { o.push(("WBX1".into(), rec("WBX1", &f((*v))))); }
    if let Some(v) = &x.bg_window_bottom_y_offset_fullscreen { o.push(("WBY1".into(), rec("WBY1", &f((*v))))); }
    if let Some(v) = &x.bg_window_bottom_z_offset_fullscreen { o.push(("WBZ1".into(), rec("WBZ1", &f((*v))))); }
    if let Some(v) = &x.bg_view_mode_full_single_screen { o.push(("VSM2".into(), rec("VSM2", &enc_ViewLayoutMode(&v)))); }
    if let Some(v) = &x.bg_rotation_full_single_screen { o.push(("ROFS".into(), rec("ROFS", &f((*v))))); }
    if let Some(v) = &x.bg_inclination_full_single_screen { o.push(("INFS".into(), rec("INFS", &f((*v))))); }
    if let Some(v) = &x.bg_layback_full_single_screen { o.push(("LAFS".into(), rec("LAFS", &f((*v))))); }
    if let Some(v) = &x.bg_fov_full_single_screen { o.push(("FOFS".into(), rec("FOFS", &f((*v))))); }
    if let Some(v) = &x.bg_offset_x_full_single_screen { o.push(("XLXS".into(), rec("XLXS", &f((*v))))); }
    if let Some(v) = &x.bg_offset_y_full_single_screen { o.push(("XLYS".into(), rec("XLYS", &f((*v))))); }
    if let Some(v) = &x.bg_offset_z_full_single_screen { o.push(("XLZS".into(), rec("XLZS", &f((*v))))); }
    if let Some(v) = &x.bg_scale_x_full_single_screen { o.push(("SCXS".into(), rec("SCXS", &f((*v))))); }
    if let Some(v) = &x.bg_scale_y_full_single_screen { o.push(("SCYS".into(), rec("SCYS", &f((*v))))); }
    if let Some(v) = &x.bg_scale_z_full_single_screen { o.push(("SCZS".into(), rec("SCZS", &f((*v))))); }
    if let Some(v) = &x.bg_view_horizontal_offset_full_single_screen { o.push(("HOF2".into(), rec("HOF2", &f((*v))))); }
    if let Some(v) = &x.bg_view_vertical_offset_full_single_screen { o.push(("VOF2".into(), rec("VOF2", &f((*v))))); }
    if let Some(v) = &x.bg_window_top_x_offset_full_single_screen { o.push(("WTX2".into(), rec("WTX2", &f((*v))))); }
    if let Some(v) = &x.bg_window_top_y_offset_full_single_screen { o.push(("WTY2".into(), rec("WTY2", &f((*v))))); }
    if let Some(v) = &x.bg_window_top_z_offset_full_single_screen { o.push(("WTZ2".into(), rec("WTZ2", &f((*v))))); }
    if let Some(v) = &x.bg_window_bottom_x_offset_full_single_screen { o.push(("WBX2".into(), rec("WBX2", &f((*v))))); }
    if let Some(v) = &x.bg_window_bottom_y_offset_full_single_screen { o.push(("WBY2".into(), rec("WBY2", &f((*v))))); }
    if let Some(v) = &x.bg_window_bottom_z_offset_full_single_screen { o.push(("WBZ2".into(), rec("WBZ2", &f((*v))))); }
    o.push(("ORRP".into(), rec("ORRP", &le32((x.override_physics)))));
    if let Some(v) = &x.override_physics_flipper { o.push(("ORPF".into(), rec("ORPF", &b32(*v)))); }
    o.push(("GAVT".into(), rec("GAVT", &f((x.gravity)))));
    o.push(("FRCT".into(), rec("FRCT", &f((x.friction)))));
    o.push(("ELAS".into(), rec("ELAS", &f((x.elasticity)))));
    o.push(("ELFA".into(), rec("ELFA", &f((x.elastic_falloff)))));
    o.push(("PFSC".into(), rec("PFSC", &f((x.scatter)))));
    o.push(("SCAT".into(), rec("SCAT", &f((x.default_scatter)))));
    o.push(("NDGT".into(), rec("NDGT", &f((x.nudge_time)))));
    if let Some(v) = &x.plunger_normalize { o.push(("MPGC".into(), rec("MPGC", &le32((*v))))); }
    if let Some(v) = &x.plunger_filter { o.push(("MPDF".into(), rec("MPDF", &b32(*v)))); }
    o.push(("PHML".into(), rec("PHML", &le32((x.physics_max_loops)))));
    o.push(("REEL".into(), rec("REEL", &b32(x.render_em_reels))));
    o.push(("DECL".into(), rec("DECL", &b32(x.render_decals))));
    o.push(("OFFX".into(), rec("OFFX", &f((x.offset_x)))));
    o.push(("OFFY".into(), rec("OFFY", &f((x.offset_y)))));
    o.push(("ZOOM".into(), rec("ZOOM", &f((x.zoom)))));
    o.push(("SLPX".into(), rec("SLPX", &f((x.angle_tilt_max)))));
    o.push(("SLOP".into(), rec("SLOP", &f((x.angle_tilt_min)))));
    if let Some(v) = &x.stereo_max_separation { o.push(("MAXS".into(), rec("MAXS", &f((*v))))); }
    if let Some(v) = &x.stereo_zero_parallax_displacement { o.push(("ZPD".into(), rec("ZPD", &f((*v))))); }
    if let Some(v) = &x.stereo_offset { o.push(("STO".into(), rec("STO", &f((*v))))); }
    if let Some(v) = &x.overwrite_global_stereo3d { o.push(("OGST".into(), rec("OGST", &b32(*v)))); }
    o.push(("IMAG".into(), rec("IMAG", &str8(&x.image))));
    o.push(("BIMG".into(), rec("BIMG", &str8(&x.backglass_image_full_desktop))));
    o.push(("BIMF".into(), rec("BIMF", &str8(&x.backglass_image_full_fullscreen))));
    if let Some(v) = &x.backglass_image_full_single_screen { o.push(("BIMS".into(), rec("BIMS", &str8(&v)))); }
    o.push(("BIMN".into(), rec("BIMN", &b32(x.image_backdrop_night_day))));
    o.push(("IMCG".into(), rec("IMCG", &str8(&x.image_color_grade))));
    o.push(("BLIM".into(), rec("BLIM", &str8(&x.ball_image))));
    if let Some(v) = &x.ball_spherical_mapping { o.push(("BLSM".into(), rec("BLSM", &b32(*v)))); }
    o.push(("BLIF".into(), rec("BLIF", &str8(&x.ball_image_front))));
    if let Some(v) = &x.env_image { o.push(("EIMG".into(), rec("EIMG", &str8(&v)))); }
    if let Some(v) = &x.notes { o.push(("NOTX".into(), rec("NOTX", &str8(&v)))); }
    o.push(("SSHT".into(), rec("SSHT", &str8(&x.screen_shot))));
    o.push(("FBCK".into(), rec("FBCK", &b32(x.display_backdrop))));
    o.push(("GLAS".into(), rec("GLAS", &f((x.glass_top_height)))));
    if let Some(v) = &x.glass_bottom_height { o.push(("GLAB".into(), rec("GLAB", &f((*v))))); }
    if let Some(v) = &x.table_height { o.push(("TBLH".into(), rec("TBLH", &f((*v))))); }
    o.push(("PLMA".into(), rec("PLMA", &str8(&x.playfield_material))));
    o.push(("BCLR".into(), rec("BCLR", &draw::color_bytes(&x.backdrop_color))));
    o.push(("TDFT".into(), rec("TDFT", &f((x.global_difficulty)))));
    o.push(("LZAM".into(), rec("LZAM", &draw::color_bytes(&x.light_ambient))));
    o.push(("LZDI".into(), rec("LZDI", &draw::color_bytes(&x.light0_emission))));
    o.push(("LZHI".into(), rec("LZHI", &f((x.light_height)))));
    o.push(("LZRA".into(), rec("LZRA", &f((x.light_range)))));
    o.push(("LIES".into(), rec("LIES", &f((x.light_emission_scale)))));
    o.push(("ENES".into(), rec("ENES", &f((x.env_emission_scale)))));
    o.push(("GLES".into(), rec("GLES", &f((x.global_emission_scale)))));
    o.push(("AOSC".into(), rec("AOSC", &f((x.ao_scale)))));
    if let Some(v) = &x.ssr_scale { o.push(("SSSC".into(), rec("SSSC", &f((*v))))); }
    if let Some(v) = &x.ground_to_lockbar_height { o.push(("CLBH".into(), rec("CLBH", &f((*v))))); }
    o.push(("SVOL".into(), rec("SVOL", &f((x.table_sound_volume)))));
    o.push(("MVOL".into(), rec("MVOL", &f((x.table_music_volume)))));
    if let Some(v) = &x.table_adaptive_vsync { o.push(("AVSY".into(), rec("AVSY", &le32((*v) as u32)))); }
    if let Some(v) = &x.use_reflection_for_balls { o.push(("BREF".into(), rec("BREF", &le32((*v) as u32)))); }
    if let Some(v) = &x.brst { o.push(("BRST".into(), rec("BRST", &le32((*v) as u32)))); }
    o.push(("PLST".into(), rec("PLST", &draw::q8_bytes(x.playfield_reflection_strength))));
    if let Some(v) = &x.use_trail_for_balls { o.push(("BTRA".into(), rec("BTRA", &le32((*v) as u32)))); }
    o.push(("BDMO".into(), rec("BDMO", &b32(x.ball_decal_mode))));
    if let Some(v) = &x.ball_playfield_reflection_strength { o.push(("BPRS".into(), rec("BPRS", &f((*v))))); }
    if let Some(v) = &x.default_bulb_intensity_scale_on_ball { o.push(("DBIS".into(), rec("DBIS", &f((*v))))); }
    if let Some(v) = &x.ball_trail_strength { o.push(("BTST".into(), rec("BTST", &le32((*v))))); }
    if let Some(v) = &x.user_detail_level { o.push(("ARAC".into(), rec("ARAC", &le32((*v))))); }
    if let Some(v) = &x.overwrite_global_detail_level { o.push(("OGAC".into(), rec("OGAC", &b32(*v)))); }
    if let Some(v) = &x.overwrite_global_day_night { o.push(("OGDN".into(), rec("OGDN", &b32(*v)))); }
    o.push(("GDAC".into(), rec("GDAC", &b32(x.show_grid))));
    if let Some(v) = &x.reflect_elements_on_playfield { o.push(("REOP".into(), rec("REOP", &b32(*v)))); }
    if let Some(v) = &x.use_aal { o.push(("UAAL".into(), rec("UAAL", &le32((*v) as u32)))); }
    if let Some(v) = &x.use_fxaa { o.push(("UFXA".into(), rec("UFXA", &le32((*v) as u32)))); }
    if let Some(v) = &x.use_ao { o.push(("UAOC".into(), rec("UAOC", &le32((*v) as u32)))); }
    if let Some(v) = &x.use_ssr { o.push(("USSR".into(), rec("USSR", &le32((*v) as u32)))); }
    if let Some(v) = &x.tone_mapper { o.push(("TMAP".into(), rec("TMAP", &enc_ToneMapper(&v)))); }
    if let Some(v) = &x.exposure { o.push(("EXPO".into(), rec("EXPO", &f((*v))))); }
    o.push(("BLST".into(), rec("BLST", &f((x.bloom_strength)))));
    o.push(("MASI".into(), rec("MASI", &le32((x.materials_size)))));
    o.extend(crate::data::GameData_special("MATE", x));
    o.extend(crate::data::GameData_special("PHMA", x));
    o.extend(crate::data::GameData_special("MATR", x));
    o.extend(crate::data::GameData_special("RPRB", x));
    o.push(("SEDT".into(), rec("SEDT", &le32((x.gameitems_size)))));
    o.push(("SSND".into(), rec("SSND", &le32((x.sounds_size)))));
    o.push(("SIMG".into(), rec("SIMG", &le32((x.images_size)))));
    o.push(("SFNT".into(), rec("SFNT", &le32((x.fonts_size)))));
    o.push(("SCOL".into(), rec("SCOL", &le32((x.collections_size)))));
    o.push(("NAME".into(), rec("NAME", &wide(&x.name))));
    o.extend(crate::data::GameData_special("CCUS", x));
    if let Some(v) = &x.protection_data { o.push(("SECB".into(), rec("SECB", &v.clone()))); }
    o.extend(crate::data::GameData_special("CODE", x));
    if let Some(v) = &x.locked { o.push(("TLCK".into(), rec("TLCK", &le32((*v))))); }
    o
}
pub fn set_GameData(t: &str, x: &mut vpin::vpx::gamedata::GameData, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "LEFT" => { let v = r.f32(); b.extend(f((v))); x.left = v; draw::trail(&mut b, r); }
        "TOPX" => { let v = r.f32(); b.extend(f((v))); x.top = v; draw::trail(&mut b, r); }
        "RGHT" => { let v = r.f32(); b.extend(f((v))); x.right = v; draw::trail(&mut b, r); }
        "BOTM" => { let v = r.f32(); b.extend(f((v))); x.bottom = v; draw::trail(&mut b, r); }
        "CLMO" => { let v = r.u32(); b.extend(le32((v))); x.camera_layout_mode = Some(v); draw::trail(&mut b, r); }
        "EFSS" => return crate::data::GameData_set_special("EFSS", x, r),
        "VSM0" => { let (v, e) = draw_ViewLayoutMode(r); b.extend(le32(e)); x.bg_view_mode_desktop = Some(v); draw::trail(&mut b, r); }
        "ROTA" => { let v = r.f32(); b.extend(f((v))); x.bg_rotation_desktop = v; draw::trail(&mut b, r); }
        "INCL" => { let v = r.f32(); b.extend(f((v))); x.bg_inclination_desktop = v; draw::trail(&mut b, r); }
        "LAYB" => { let v = r.f32(); b.extend(f((v))); x.bg_layback_desktop = v; draw::trail(&mut b, r); }
        "FOVX" => { let v = r.f32(); b.extend(f((v))); x.bg_fov_desktop = v; draw::trail(&mut b, r); }
        "XLTX" => { let v = r.f32(); b.extend(f((v))); x.bg_offset_x_desktop = v; draw::trail(&mut b, r); }
        "XLTY" => { let v = r.f32(); b.extend(f((v))); x.bg_offset_y_desktop = v; draw::trail(&mut b, r); }
        "XLTZ" => { let v = r.f32(); b.extend(f((v))); x.bg_offset_z_desktop = v; draw::trail(&mut b, r); }
        "SCLX" => { let v = r.f32(); b.extend(f((v))); x.bg_scale_x_desktop = v; draw::trail(&mut b, r); }
        "SCLY" => { let v = r.f32(); b.extend(f((v))); x.bg_scale_y_desktop = v; draw::trail(&mut b, r); }
        "SCLZ" => { let v = r.f32(); b.extend(f((v))); x.bg_scale_z_desktop = v; draw::trail(&mut b, r); }
        "HOF0" => { let v = r.f32(); b.extend(f((v))); x.bg_view_horizontal_offset_desktop = Some(v); draw::trail(&mut b, r); }
        "VOF0" => { let v = r.f32(); b.extend(f((v))); x.bg_view_vertical_offset_desktop = Some(v); draw::trail(&mut b, r); }
        "WTX0" => { let v = r.f32(); b.extend(f((v))); x.bg_window_top_x_offset_desktop = Some(v); draw::trail(&mut b, r); }
        "WTY0" => { let v = r.f32(); b.extend(f((v))); x.bg_window_top_y_offset_desktop = Some(v); draw::trail(&mut b, r); }
        "WTZ0" => { let v = r.f32(); b.extend(f((v))); x.bg_window_top_z_offset_desktop = Some(v); draw::trail(&mut b, r); }
        "WBX0" => { let v = r.f32(); b.extend(f((v))); x.bg_window_bottom_x_offset_desktop = Some(v); draw::trail(&mut b, r); }
        "WBY0" => { let v = r.f32(); b.extend(f((v))); x.bg_window_bottom_y_offset_desktop = Some(v); draw::trail(&mut b, r); }
        "WBZ0" => { let v = r.f32(); b.extend(f((v))); x.bg_window_bottom_z_offset_desktop = Some(v); draw::trail(&mut b, r); }
        "VSM1" => { let (v, e) = draw_ViewLayoutMode(r); b.extend(le32(e)); x.bg_view_mode_fullscreen = Some(v); draw::trail(&mut b, r); }
        "ROTF" => { let v = r.f32(); b.extend(f((v))); x.bg_rotation_fullscreen = v; draw::trail(&mut b, r); }
        "INCF" => { let v = r.f32(); b.extend(f((v))); x.bg_inclination_fullscreen = v; draw::trail(&mut b, r); }
        "LAYF" => { let v = r.f32(); b.extend(f((v))); x.bg_layback_fullscreen = v; draw::trail(&mut b, r); }
        "FOVF" => { let v = r.f32(); b.extend(f((v))); x.bg_fov_fullscreen = v; draw::trail(&mut b, r); }
        "XLFX" => { let v = r.f32(); b.extend(f((v))); x.bg_offset_x_fullscreen = v; draw::trail(&mut b, r); }
        "XLFY" => { let v = r.f32(); b.extend(f((v))); x.bg_offset_y_fullscreen = v; draw::trail(&mut b, r); }
        "XLFZ" => { let v = r.f32(); b.extend(f((v))); x.bg_offset_z_fullscreen = v; draw::trail(&mut b, r); }
        "SCFX" => { let v = r.f32(); b.extend(f((v))); x.bg_scale_x_fullscreen = v; draw::trail(&mut b, r); }
        "SCFY" => { let v = r.f32(); b.extend(f((v))); x.bg_scale_y_fullscreen = v; draw::trail(&mut b, r); }
        "SCFZ" => { let v = r.f32(); b.extend(f((v))); x.bg_scale_z_fullscreen = v; draw::trail(&mut b, r); }
        "HOF1" => { let v = r.f32(); b.extend(f((v))); x.bg_view_horizontal_offset_fullscreen = Some(v); draw::trail(&mut b, r); }
        "VOF1" => { let v = r.f32(); b.extend(f((v))); x.bg_view_vertical_offset_fullscreen = Some(v); draw::trail(&mut b, r); }
        "WTX1" => { let v = r.f32(); b.extend(f((v))); x.bg_window_top_x_offset_fullscreen = Some(v); draw::trail(&mut b, r); }
        "WTY1" => { let v = r.f32(); b.extend(f((v))); x.bg_window_top_y_offset_fullscreen = Some(v); draw::trail(&mut b, r); }
        "WTZ1" => { let v = r.f32(); b.extend(f((v))); x.bg_window_top_z_offset_fullscreen = Some(v); draw::trail(&mut b, r); }
        "WBX1" => { let v = r.f32(); b.extend(f((v))); x.bg_window_bottom_x_offset_fullscreen = Some(v); draw::trail(&mut b, r); }
        "WBY1" => { let v = r.f32(); b.extend(f((v))); x.bg_window_bottom_y_offset_fullscreen = Some(v); draw::trail(&mut b, r); }
        "WBZ1" => { let v = r.f32(); b.extend(f((v))); x.bg_window_bottom_z_offset_fullscreen = Some(v); draw::trail(&mut b, r); }
        "VSM2" => { let (v, e) = draw_ViewLayoutMode(r); b.extend(le32(e)); x.bg_view_mode_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "ROFS" => { let v = r.f32(); b.extend(f((v))); x.bg_rotation_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "INFS" => { let v = r.f32(); b.extend(f((v))); x.bg_inclination_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "LAFS" => { let v = r.f32(); b.extend(f((v))); x.bg_layback_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "FOFS" => { let v = r.f32(); b.extend(f((v))); x.bg_fov_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "XLXS" => { let v = r.f32(); b.extend(f((v))); x.bg_offset_x_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "XLYS" => { let v = r.f32(); b.extend(f((v))); x.bg_offset_y_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "XLZS" => { let v = r.f32(); b.extend(f((v))); x.bg_offset_z_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "SCXS" => { let v = r.f32(); b.extend(f((v))); x.bg_scale_x_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "SCYS" => { let v = r.f32(); b.extend(f((v))); x.bg_scale_y_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "SCZS" => { let v = r.f32(); b.extend(f((v))); x.bg_scale_z_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "HOF2" => { let v = r.f32(); b.extend(f((v))); x.bg_view_horizontal_offset_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "VOF2" => { let v = r.f32(); b.extend(f((v))); x.bg_view_vertical_offset_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "WTX2" => { let v = r.f32(); b.extend(f((v))); x.bg_window_top_x_offset_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "WTY2" => { let v = r.f32(); b.extend(f((v))); x.bg_window_top_y_offset_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "WTZ2" => { let v = r.f32(); b.extend(f((v))); x.bg_window_top_z_offset_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "WBX2" => { let v = r.f32(); b.extend(f((v))); x.bg_window_bottom_x_offset_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "WBY2" => { let v = r.f32(); b.extend(f((v))); x.bg_window_bottom_y_offset_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "WBZ2" => { let v = r.f32(); b.extend(f((v))); x.bg_window_bottom_z_offset_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "ORRP" => { let v = r.u32(); b.extend(le32((v))); x.override_physics = v; draw::trail(&mut b, r); }
        "ORPF" => { let (v, e) = draw::boolean(r); b.extend(e); x.override_physics_flipper = Some(v); draw::trail(&mut b, r); }
        "GAVT" => { let v = r.f32(); b.extend(f((v))); x.gravity = v; draw::trail(&mut b, r); }
        "FRCT" => { let v = r.f32(); b.extend(f((v))); x.friction = v; draw::trail(&mut b, r); }
        "ELAS" => { let v = r.f32(); b.extend(f((v))); x.elasticity = v; draw::trail(&mut b, r); }
        "ELFA" => { let v = r.f32(); b.extend(f((v))); x.elastic_falloff = v; draw::trail(&mut b, r); }
        "PFSC" => { let v = r.f32(); b.extend(f((v))); x.scatter = v; draw::trail(&mut b, r); }
        "SCAT" => { let v = r.f32(); b.extend(f((v))); x.default_scatter = v; draw::trail(&mut b, r); }
        "NDGT" => { let v = r.f32(); b.extend(f((v))); x.nudge_time = v; draw::trail(&mut b, r); }
        "MPGC" => { let v = r.u32(); b.extend(le32((v))); x.plunger_normalize = Some(v); draw::trail(&mut b, r); }
        "MPDF" => { let (v, e) = draw::boolean(r); b.extend(e); x.plunger_filter = Some(v); draw::trail(&mut b, r); }
        "PHML" => { let v = r.u32(); b.extend(le32((v))); x.physics_max_loops = v; draw::trail(&mut b, r); }
        "REEL" => { let (v, e) = draw::boolean(r); b.extend(e); x.render_em_reels = v; draw::trail(&mut b, r); }
        "DECL" => { let (v, e) = draw::boolean(r); b.extend(e); x.render_decals = v; draw::trail(&mut b, r); }
        "OFFX" => { let v = r.f32(); b.extend(f((v))); x.offset_x = v; draw::trail(&mut b, r); }
        "OFFY" => { let v = r.f32(); b.extend(f((v))); x.offset_y = v; draw::trail(&mut b, r); }
        "ZOOM" => { let v = r.f32(); b.extend(f((v))); x.zoom = v; draw::trail(&mut b, r); }
        "SLPX" => { let v = r.f32(); b.extend(f((v))); x.angle_tilt_max = v; draw::trail(&mut b, r); }
        "SLOP" => { let v = r.f32(); b.extend(f((v))); x.angle_tilt_min = v; draw::trail(&mut b, r); }
        "MAXS" => { let v = r.f32(); b.extend(f((v))); x.stereo_max_separation = Some(v); draw::trail(&mut b, r); }
        "ZPD" => { let v = r.f32(); b.extend(f((v))); x.stereo_zero_parallax_displacement = Some(v); draw::trail(&mut b, r); }
        "STO" => { let v = r.f32(); b.extend(f((v))); x.stereo_offset = Some(v); draw::trail(&mut b, r); }
        "OGST" => { let (v, e) = draw::boolean(r); b.extend(e); x.overwrite_global_stereo3d = Some(v); draw::trail(&mut b, r); }
        "IMAG" => { let (v, e) = draw::string(r); b.extend(e); x.image = v; draw::trail(&mut b, r); }
        "BIMG" => { let (v, e) = draw::string(r); b.extend(e); x.backglass_image_full_desktop = v; draw::trail(&mut b, r); }
        "BIMF" => { let (v, e) = draw::string(r); b.extend(e); x.backglass_image_full_fullscreen = v; draw::trail(&mut b, r); }
        "BIMS" => { let (v, e) = draw::string(r); b.extend(e); x.backglass_image_full_single_screen = Some(v); draw::trail(&mut b, r); }
        "BIMN" => { let (v, e) = draw::boolean(r); b.extend(e); x.image_backdrop_night_day = v; draw::trail(&mut b, r); }
        "IMCG" => { let (v, e) = draw::string(r); b.extend(e); x.image_color_grade = v; draw::trail(&mut b, r); }
        "BLIM" => { let (v, e) = draw::string(r); b.extend(e); x.ball_image = v; draw::trail(&mut b, r); }
        "BLSM" => { let (v, e) = draw::boolean(r); b.extend(e); x.ball_spherical_mapping = Some(v); draw::trail(&mut b, r); }
        "BLIF" => { let (v, e) = draw::string(r); b.extend(e); x.ball_image_front = v; draw::trail(&mut b, r); }
        "EIMG" => { let (v, e) = draw::string(r); b.extend(e); x.env_image = Some(v); draw::trail(&mut b, r); }
        "NOTX" => { let (v, e) = draw::string(r); b.extend(e); x.notes = Some(v); draw::trail(&mut b, r); }
        "SSHT" => { let (v, e) = draw::string(r); b.extend(e); x.screen_shot = v; draw::trail(&mut b, r); }
        "FBCK" => { let (v, e) = draw::boolean(r); b.extend(e); x.display_backdrop = v; draw::trail(&mut b, r); }
        "GLAS" => { let v = r.f32(); b.extend(f((v))); x.glass_top_height = v; draw::trail(&mut b, r); }
        "GLAB" => { let v = r.f32(); b.extend(f((v))); x.glass_bottom_height = Some(v); draw::trail(&mut b, r); }
        "TBLH" => { let v = r.f32(); b.extend(f((v))); x.table_height = Some(v); draw::trail(&mut b, r); }
        "PLMA" => { let (v, e) = draw::string(r); b.extend(e); x.playfield_material = v; draw::trail(&mut b, r); }
        "BCLR" => { let (v, e) = draw::color(r); b.extend(e); x.backdrop_color = v; draw::trail(&mut b, r); }
        "TDFT" => { let v = r.f32(); b.extend(f((v))); x.global_difficulty = v; draw::trail(&mut b, r); }
        "LZAM" => { let (v, e) = draw::color(r); b.extend(e); x.light_ambient = v; draw::trail(&mut b, r); }
        "LZDI" => { let (v, e) = draw::color(r); b.extend(e); x.light0_emission = v; draw::trail(&mut b, r); }
        "LZHI" => { let v = r.f32(); b.extend(f((v))); x.light_height = v; draw::trail(&mut b, r); }
        "LZRA" => { let v = r.f32(); b.extend(f((v))); x.light_range = v; draw::trail(&mut b, r); }
        "LIES" => { let v = r.f32(); b.extend(f((v))); x.light_emission_scale = v; draw::trail(&mut b, r); }
        "ENES" => { let v = r.f32(); b.extend(f((v))); x.env_emission_scale = v; draw::trail(&mut b, r); }
        "GLES" => { let v = r.f32(); b.extend(f((v))); x.global_emission_scale = v; draw::trail(&mut b, r); }
        "AOSC" => { let v = r.f32(); b.extend(f((v))); x.ao_scale = v; draw::trail(&mut b, r); }
        "SSSC" => { let v = r.f32(); b.extend(f((v))); x.ssr_scale = Some(v); draw::trail(&mut b, r); }
        "CLBH" => { let v = r.f32(); b.extend(f((v))); x.ground_to_lockbar_height = Some(v); draw::trail(&mut b, r); }
        "SVOL" => { let v = r.f32(); b.extend(f((v))); x.table_sound_volume = v; draw::trail(&mut b, r); }
        "MVOL" => { let v = r.f32(); b.extend(f((v))); x.table_music_volume = v; draw::trail(&mut b, r); }
        "AVSY" => { let v = r.i32(); b.extend(le32((v) as u32)); x.table_adaptive_vsync = Some(v); draw::trail(&mut b, r); }
        "BREF" => { let v = r.i32(); b.extend(le32((v) as u32)); x.use_reflection_for_balls = Some(v); draw::trail(&mut b, r); }
        "BRST" => { let v = r.i32(); b.extend(le32((v) as u32)); x.brst = Some(v); draw::trail(&mut b, r); }
        "PLST" => { let (v, e) = draw::q8(r); b.extend(e); x.playfield_reflection_strength = v; draw::trail(&mut b, r); }
        "BTRA" => { let v = r.i32(); b.extend(le32((v) as u32)); x.use_trail_for_balls = Some(v); draw::trail(&mut b, r); }
        "BDMO" => { let (v, e) = draw::boolean(r); b.extend(e); x.ball_decal_mode = v; draw::trail(&mut b, r); }
        "BPRS" => { let v = r.f32(); b.extend(f((v))); x.ball_playfield_reflection_strength = Some(v); draw::trail(&mut b, r); }
        "DBIS" => { let v = r.f32(); b.extend(f((v))); x.default_bulb_intensity_scale_on_ball = Some(v); draw::trail(&mut b, r); }
        "BTST" => { let v = r.u32(); b.extend(le32((v))); x.ball_trail_strength = Some(v); draw::trail(&mut b, r); }
        "ARAC" => { let v = r.u32(); b.extend(le32((v))); x.user_detail_level = Some(v); draw::trail(&mut b, r); }
        "OGAC" => { let (v, e) = draw::boolean(r); b.extend(e); x.overwrite_global_detail_level = Some(v); draw::trail(&mut b, r); }
        "OGDN" => { let (v, e) = draw::boolean(r); b.extend(e); x.overwrite_global_day_night = Some(v); draw::trail(&mut b, r); }
        "GDAC" => { let (v, e) = draw::boolean(r); b.extend(e); x.show_grid = v; draw::trail(&mut b, r); }
        "REOP" => { let (v, e) = draw::boolean(r); b.extend(e); x.reflect_elements_on_playfield = Some(v); draw::trail(&mut b, r); }
        "UAAL" => { let v = r.i32(); b.extend(le32((v) as u32)); x.use_aal = Some(v); draw::trail(&mut b, r); }
        "UFXA" => { let v = r.i32(); b.extend(le32((v) as u32)); x.use_fxaa = Some(v); draw::trail(&mut b, r); }
        "UAOC" => { let v = r.i32(); b.extend(le32((v) as u32)); x.use_ao = Some(v); draw::trail(&mut b, r); }
        "USSR" => { let v = r.i32(); b.extend(le32((v) as u32)); x.use_ssr = Some(v); draw::trail(&mut b, r); }
        "TMAP" => { let (v, e) = draw_ToneMapper(r); b.extend(le32(e)); x.tone_mapper = Some(v); draw::trail(&mut b, r); }
        "EXPO" => { let v = r.f32(); b.extend(f((v))); x.exposure = Some(v); draw::trail(&mut b, r); }
        "BLST" => { let v = r.f32(); b.extend(f((v))); x.bloom_strength = v; draw::trail(&mut b, r); }
        "MASI" => { let v = r.u32(); b.extend(le32((v))); x.materials_size = v; draw::trail(&mut b, r); }
        "MATE" => return crate::data::GameData_set_special("MATE", x, r),
        "PHMA" => return crate::data::GameData_set_special("PHMA", x, r),
        "MATR" => return crate::data::GameData_set_special("MATR", x, r),
        "RPRB" => return crate::data::GameData_set_special("RPRB", x, r),
        "SEDT" => { let v = r.u32(); b.extend(le32((v))); x.gameitems_size = v; draw::trail(&mut b, r); }
        "SSND" => { let v = r.u32(); b.extend(le32((v))); x.sounds_size = v; draw::trail(&mut b, r); }
        "SIMG" => { let v = r.u32(); b.extend(le32((v))); x.images_size = v; draw::trail(&mut b, r); }
        "SFNT" => { let v = r.u32(); b.extend(le32((v))); x.fonts_size = v; draw::trail(&mut b, r); }
        "SCOL" => { let v = r.u32(); b.extend(le32((v))); x.collections_size = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::wide_string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "CCUS" => return crate::data::GameData_set_special("CCUS", x, r),
        "SECB" => { let v = r.bytes(60); b.extend(v.clone()); x.protection_data = Some(v); }
        "CODE" => return crate::data::GameData_set_special("CODE", x, r),
        "TLCK" => { let v = r.u32(); b.extend(le32((v))); x.locked = Some(v); draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_GameData() -> vpin::vpx::gamedata::GameData { let mut x = vpin::vpx::gamedata::GameData::default(); x }
pub fn random_GameData(r: &mut Rng) -> vpin::vpx::gamedata::GameData {
    let mut x = vpin::vpx::gamedata::GameData::default();
    let dense = r.below(4);
    for t in ["LEFT", "TOPX", "RGHT", "BOTM", "CLMO", "VSM0", "ROTA", "INCL", "LAYB", "FOVX", "XLTX", "XLTY", "XLTZ", "SCLX", "SCLY", "SCLZ", "HOF0", "VOF0", "WTX0", "WTY0", "WTZ0", "WBX0", "WBY0", "WBZ0", "VSM1", "ROTF", "INCF", "LAYF", "FOVF", "XLFX", "XLFY", "XLFZ", "SCFX", "SCFY", "SCFZ", "HOF1", "VOF1", "WTX1", "WTY1", "WTZ1", "WBX1", "WBY1", "WBZ1", "VSM2", "ROFS", "INFS", "LAFS", "FOFS", "XLXS", "XLYS", "XLZS", "SCXS", "SCYS", "SCZS", "HOF2", "VOF2", "WTX2", "WTY2", "WTZ2", "WBX2", "WBY2", "WBZ2", "ORRP", "ORPF", "GAVT", "FRCT", "ELAS", "ELFA", "PFSC", "SCAT", "NDGT", "MPGC", "MPDF", "PHML", "REEL", "DECL", "OFFX", "OFFY", "ZOOM", "SLPX", "SLOP", "MAXS", "ZPD", "STO", "OGST", "IMAG", "BIMG", "BIMF", "BIMS", "BIMN", "IMCG", "BLIM", "BLSM", "BLIF", "EIMG", "NOTX", "SSHT", "FBCK", "GLAS", "GLAB", "TBLH", "PLMA", "BCLR", "TDFT", "LZAM", "LZDI", "LZHI", "LZRA", "LIES", "ENES", "GLES", "AOSC", "SSSC", "CLBH", "SVOL", "MVOL", "AVSY", "BREF", "BRST", "PLST", "BTRA", "BDMO", "BPRS", "DBIS", "BTST", "ARAC", "OGAC", "OGDN", "GDAC", "REOP", "UAAL", "UFXA", "UAOC", "USSR", "TMAP", "EXPO", "BLST", "MASI", "SEDT", "SSND", "SIMG", "SFNT", "SCOL", "NAME", "SECB", "TLCK"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_GameData(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    if r.chance(3) { x.camera_layout_mode = None; }
    if r.chance(3) { x.bg_view_mode_desktop = None; }
    if r.chance(3) { x.bg_enable_fss = None; }
    if r.chance(3) { x.bg_view_horizontal_offset_desktop = None; }
    if r.chance(3) { x.bg_view_vertical_offset_desktop = None; }
    if r.chance(3) { x.bg_window_top_x_offset_desktop = None; }
    if r.chance(3) { x.bg_window_top_y_offset_desktop = None; }
    if r.chance(3) { x.bg_window_top_z_offset_desktop = None; }
    if r.chance(3) { x.bg_window_bottom_x_offset_desktop = None; }
    if r.chance(3) { x.bg_window_bottom_y_offset_desktop = None; }
    if r.chance(3) { x.bg_window_bottom_z_offset_desktop = None; }
    if r.chance(3) { x.bg_view_mode_fullscreen = None; }
    if r.chance(3) { x.bg_view_horizontal_offset_fullscreen = None; }
    if r.chance(3) { x.bg_view_vertical_offset_fullscreen = None; }
    if r.chance(3) { x.bg_window_top_x_offset_fullscreen = None; }
    if r.chance(3) { x.bg_window_top_y_offset_fullscreen = None; }
    if r.chance(3) { x.bg_window_top_z_offset_fullscreen = None; }
    if r.chance(3) { x.bg_window_bottom_x_offset_fullscreen = None; }
    if r.chance(3) { x.bg_window_bottom_y_offset_fullscreen = None; }
    if r.chance(3) { x.bg_window_bottom_z_offset_fullscreen = None; }
    if r.chance(3) { x.bg_view_mode_full_single_screen = None; }
    if r.chance(3) { x.bg_rotation_full_single_screen = None; }
    if r.chance(3) { x.bg_inclination_full_single_screen = None; }
    if r.chance(3) { x.bg_layback_full_single_screen = None; }
    if r.chance(3) { x.bg_fov_full_single_screen = None; }
    if r.chance(3) { x.bg_offset_x_full_single_screen = None; }
    if r.chance(3) { x.bg_offset_y_full_single_screen = None; }
    if r.chance(3) { x.bg_offset_z_full_single_screen = None; }
    if r.chance(3) { x.bg_scale_x_full_single_screen = None; }
    if r.chance(3) { x.bg_scale_y_full_single_screen = None; }
    if r.chance(3) { x.bg_scale_z_full_single_screen = None; }
    if r.chance(3) { x.bg_view_horizontal_offset_full_single_screen = None; }
    if r.chance(3) { x.bg_view_vertical_offset_full_single_screen = None; }
    if r.chance(3) { x.bg_window_top_x_offset_full_single_screen = None; }
    if r.chance(3) { x.bg_window_top_y_offset_full_single_screen = None; }
    if r.chance(3) { x.bg_window_top_z_offset_full_single_screen = None; }
    if r.chance(3) { x.bg_window_bottom_x_offset_full_single_screen = None; }
    if r.chance(3) { x.bg_window_bottom_y_offset_full_single_screen = None; }
    if r.chance(3) { x.bg_window_bottom_z_offset_full_single_screen = None; }
    if r.chance(3) { x.override_physics_flipper = None; }
    if r.chance(3) { x.plunger_normalize = None; }
    if r.chance(3) { x.plunger_filter = None; }
    if r.chance(3) { x.stereo_max_separation = None; }
    if r.chance(3) { x.stereo_zero_parallax_displacement = None; }
    if r.chance(3) { x.stereo_offset = None; }
    if r.chance(3) { x.overwrite_global_stereo3d = None; }
    if r.chance(3) { x.backglass_image_full_single_screen = None; }
    if r.chance(3) { x.ball_spherical_mapping = None; }
    if r.chance(3) { x.env_image = None; }
    if r.chance(3) { x.notes = None; }
    if r.chance(3) { x.glass_bottom_height = None; }
    if r.chance(3) { x.table_height = None; }
    if r.chance(3) { x.ssr_scale = None; }
    if r.chance(3) { x.ground_to_lockbar_height = None; }
    if r.chance(3) { x.table_adaptive_vsync = None; }
    if r.chance(3) { x.use_reflection_for_balls = None; }
    if r.chance(3) { x.brst = None; }
    if r.chance(3) { x.use_trail_for_balls = None; }
    if r.chance(3) { x.ball_playfield_reflection_strength = None; }
    if r.chance(3) { x.default_bulb_intensity_scale_on_ball = None; }
    if r.chance(3) { x.ball_trail_strength = None; }
    if r.chance(3) { x.user_detail_level = None; }
    if r.chance(3) { x.overwrite_global_detail_level = None; }
    if r.chance(3) { x.overwrite_global_day_night = None; }
    if r.chance(3) { x.reflect_elements_on_playfield = None; }
    if r.chance(3) { x.use_aal = None; }
    if r.chance(3) { x.use_fxaa = None; }
    if r.chance(3) { x.use_ao = None; }
    if r.chance(3) { x.use_ssr = None; }
    if r.chance(3) { x.tone_mapper = None; }
    if r.chance(3) { x.materials_physics_old = None; }
    if r.chance(3) { x.materials = None; }
    if r.chance(3) { x.render_probes = None; }
    if r.chance(3) { x.protection_data = None; }
    if r.chance(3) { x.locked = None; }
    if r.chance(3) { x.exposure = None; }
    x
}
pub fn same_GameData(what: &str, got: &vpin::vpx::gamedata::GameData, want: &vpin::vpx::gamedata::GameData) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

// ---------------------------------------------------------------- Material
pub const MATERIAL_TAGS: &[&str] = &["TYPE", "NAME", "WLIG", "ROUG", "GIML", "THCK", "EDGE", "EALP", "OPAC", "BASE", "GLOS", "COAT", "RTNT", "EOPA", "ELAS", "ELFO", "FRIC", "SCAT"];
pub fn records_Material(x: &vpin::vpx::material::Material) -> Vec<Chunk> {
    let mut o: Vec<Chunk> = vec![];
    o.push(("TYPE".into(), rec("TYPE", &enc_MaterialType(&x.type_))));
    o.push(("NAME".into(), rec("NAME", &str8(&x.name))));
    o.push(("WLIG".into(), rec("WLIG", &f((x.wrap_lighting)))));
    o.push(("ROUG".into(), rec("ROUG", &f((x.roughness)))));
    o.push(("GIML".into(), rec("GIML", &f((x.glossy_image_lerp)))));
    o.push(("THCK".into(), rec("THCK", &f((x.thickness)))));
    o.push(("EDGE".into(), rec("EDGE", &f((x.edge)))));
    o.push(("EALP".into(), rec("EALP", &f((x.edge_alpha)))));
    o.push(("OPAC".into(), rec("OPAC", &f((x.opacity)))));
    o.push(("BASE".into(), rec("BASE", &draw::color_bytes(&x.base_color))));
    o.push(("GLOS".into(), rec("GLOS", &draw::color_bytes(&x.glossy_color))));
    o.push(("COAT".into(), rec("COAT", &draw::color_bytes(&x.clearcoat_color))));
    o.extend(crate::data::Material_special("RTNT", x));
    o.push(("EOPA".into(), rec("EOPA", &b32(x.opacity_active))));
    o.push(("ELAS".into(), rec("ELAS", &f((x.elasticity)))));
    o.push(("ELFO".into(), rec("ELFO", &f((x.elasticity_falloff)))));
    o.push(("FRIC".into(), rec("FRIC", &f((x.friction)))));
    o.push(("SCAT".into(), rec("SCAT", &f((x.scatter_angle)))));
    o
}
pub fn set_Material(t: &str, x: &mut vpin::vpx::material::Material, r: &mut Rng) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    match t {
        "TYPE" => { let (v, e) = draw_MaterialType(r); b.extend(le32(e)); x.type_ = v; draw::trail(&mut b, r); }
        "NAME" => { let (v, e) = draw::string(r); b.extend(e); x.name = v; draw::trail(&mut b, r); }
        "WLIG" => { let v = r.f32(); b.extend(f((v))); x.wrap_lighting = v; draw::trail(&mut b, r); }
        "ROUG" => { let v = r.f32(); b.extend(f((v))); x.roughness = v; draw::trail(&mut b, r); }
        "GIML" => { let v = r.f32(); b.extend(f((v))); x.glossy_image_lerp = v; draw::trail(&mut b, r); }
        "THCK" => { let v = r.f32(); b.extend(f((v))); x.thickness = v; draw::trail(&mut b, r); }
        "EDGE" => { let v = r.f32(); b.extend(f((v))); x.edge = v; draw::trail(&mut b, r); }
        "EALP" => { let v = r.f32(); b.extend(f((v))); x.edge_alpha = v; draw::trail(&mut b, r); }
        "OPAC" => { let v = r.f32(); b.extend(f((v))); x.opacity = v; draw::trail(&mut b, r); }
        "BASE" => { let (v, e) = draw::color(r); b.extend(e); x.base_color = v; draw::trail(&mut b, r); }
        "GLOS" => { let (v, e) = draw::color(r); b.extend(e); x.glossy_color = v; draw::trail(&mut b, r); }
        "COAT" => { let (v, e) = draw::color(r); b.extend(e); x.clearcoat_color = v; draw::trail(&mut b, r); }
        "RTNT" => return crate::data::Material_set_special("RTNT", x, r),
        "EOPA" => { let (v, e) = draw::boolean(r); b.extend(e); x.opacity_active = v; draw::trail(&mut b, r); }
        "ELAS" => { let v = r.f32(); b.extend(f((v))); x.elasticity = v; draw::trail(&mut b, r); }
        "ELFO" => { let v = r.f32(); b.extend(f((v))); x.elasticity_falloff = v; draw::trail(&mut b, r); }
        "FRIC" => { let v = r.f32(); b.extend(f((v))); x.friction = v; draw::trail(&mut b, r); }
        "SCAT" => { let v = r.f32(); b.extend(f((v))); x.scatter_angle = v; draw::trail(&mut b, r); }
        _ => panic!("unknown tag {t}"),
    }
    rec(t, &b)
}
/// the value an element has before its first record
pub fn start_Material() -> vpin::vpx::material::Material { let mut x = vpin::vpx::material::Material::default(); x }
pub fn random_Material(r: &mut Rng) -> vpin::vpx::material::Material {
    let mut x = vpin::vpx::material::Material::default();
    let dense = r.below(4);
    for t in ["TYPE", "NAME", "WLIG", "ROUG", "GIML", "THCK", "EDGE", "EALP", "OPAC", "BASE", "GLOS", "COAT", "EOPA", "ELAS", "ELFO", "FRIC", "SCAT"] { if dense != 0 || r.bool() { draw::PLAIN.with(|p| p.set(true)); set_Material(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); } }
    x
}
pub fn same_Material(what: &str, got: &vpin::vpx::material::Material, want: &vpin::vpx::material::Material) -> crate::R {
    if got != want { return crate::same(what, got, want); }
    crate::same_dbg(what, got, want)
}

#[macro_export]
macro_rules! for_each_kind {
    ($m:ident) => {
        $m!(Ball, ball, "Ball", BALL_TAGS, records_Ball, set_Ball, start_Ball, random_Ball, same_Ball);
        $m!(Bumper, bumper, "Bumper", BUMPER_TAGS, records_Bumper, set_Bumper, start_Bumper, random_Bumper, same_Bumper);
        $m!(Decal, decal, "Decal", DECAL_TAGS, records_Decal, set_Decal, start_Decal, random_Decal, same_Decal);
        $m!(DragPoint, dragpoint, "DragPoint", DRAGPOINT_TAGS, records_DragPoint, set_DragPoint, start_DragPoint, random_DragPoint, same_DragPoint);
        $m!(Flasher, flasher, "Flasher", FLASHER_TAGS, records_Flasher, set_Flasher, start_Flasher, random_Flasher, same_Flasher);
        $m!(Flipper, flipper, "Flipper", FLIPPER_TAGS, records_Flipper, set_Flipper, start_Flipper, random_Flipper, same_Flipper);
        $m!(Gate, gate, "Gate", GATE_TAGS, records_Gate, set_Gate, start_Gate, random_Gate, same_Gate);
        $m!(HitTarget, hittarget, "HitTarget", HITTARGET_TAGS, records_HitTarget, set_HitTarget, start_HitTarget, random_HitTarget, same_HitTarget);
        $m!(Kicker, kicker, "Kicker", KICKER_TAGS, records_Kicker, set_Kicker, start_Kicker, random_Kicker, same_Kicker);
        $m!(Light, light, "Light", LIGHT_TAGS, records_Light, set_Light, start_Light, random_Light, same_Light);
        $m!(LightSequencer, lightsequencer, "LightSequencer", LIGHTSEQUENCER_TAGS, records_LightSequencer, set_LightSequencer, start_LightSequencer, random_LightSequencer, same_LightSequencer);
        $m!(PartGroup, partgroup, "PartGroup", PARTGROUP_TAGS, records_PartGroup, set_PartGroup, start_PartGroup, random_PartGroup, same_PartGroup);
        $m!(Plunger, plunger, "Plunger", PLUNGER_TAGS, records_Plunger, set_Plunger, start_Plunger, random_Plunger, same_Plunger);
        $m!(Primitive, primitive, "Primitive", PRIMITIVE_TAGS, records_Primitive, set_Primitive, start_Primitive, random_Primitive, same_Primitive);
        $m!(Ramp, ramp, "Ramp", RAMP_TAGS, records_Ramp, set_Ramp, start_Ramp, random_Ramp, same_Ramp);
        $m!(Reel, reel, "Reel", REEL_TAGS, records_Reel, set_Reel, start_Reel, random_Reel, same_Reel);
        $m!(Rubber, rubber, "Rubber", RUBBER_TAGS, records_Rubber, set_Rubber, start_Rubber, random_Rubber, same_Rubber);
        $m!(Spinner, spinner, "Spinner", SPINNER_TAGS, records_Spinner, set_Spinner, start_Spinner, random_Spinner, same_Spinner);
        $m!(TextBox, textbox, "TextBox", TEXTBOX_TAGS, records_TextBox, set_TextBox, start_TextBox, random_TextBox, same_TextBox);
        $m!(Timer, timer, "Timer", TIMER_TAGS, records_Timer, set_Timer, start_Timer, random_Timer, same_Timer);
        $m!(Trigger, trigger, "Trigger", TRIGGER_TAGS, records_Trigger, set_Trigger, start_Trigger, random_Trigger, same_Trigger);
        $m!(Wall, wall, "Wall", WALL_TAGS, records_Wall, set_Wall, start_Wall, random_Wall, same_Wall);
    };
}
