//! The JSON form of every element kind, as a value and as text, back to an equal element.
use replay::gen_items::*;
use replay::*;
use serde_json::Value;
use vpin::vpx::gameitem::*;
use vpin::vpx::gameitem::{dragpoint::DragPoint, generic::Generic};

fn back<T: serde::de::DeserializeOwned>(what: &str, j: &Value) -> Result<T, String> {
    serde_json::from_value(j.clone()).map_err(|e| format!("{what}: {e} in {j}"))
}
fn back_text<T: serde::de::DeserializeOwned>(what: &str, j: &str) -> Result<T, String> {
    serde_json::from_str(j).map_err(|e| format!("{what}: {e} in {j}"))
}
/// numbers that plain JSON has no form for, with the bits of not-a-number values varied
fn odd(r: &mut Rng) -> f32 {
    match r.below(6) {
        0 => f32::INFINITY,
        1 => f32::NEG_INFINITY,
        2 => f32::from_bits(0x7f80_0001 | (r.u64() as u32 & 0x003f_ffff)),
        3 => f32::from_bits(0xffc0_0000 | (r.u64() as u32 & 0x003f_ffff)),
        4 => f32::from_bits(0x7fc0_0000 | (r.u64() as u32 & 0x003f_ffff)),
        _ => r.finite(),
    }
}
fn bits(what: &str, got: f32, want: f32) -> R {
    check(got.to_bits() == want.to_bits(), || format!("{what}: {:08x} became {:08x}", want.to_bits(), got.to_bits()))
}

macro_rules! elsewhere {
    (DragPoint, $x:ident) => {};
    (PartGroup, $x:ident) => {};
    (LightSequencer, $x:ident) => {
        $x.is_locked = None;
        elsewhere!(Layer, $x);
    };
    (Layer, $x:ident) => {
        $x.editor_layer = None;
        $x.editor_layer_name = None;
        $x.editor_layer_visibility = None;
    };
    (Primitive, $x:ident) => {
        $x.num_vertices = None;
        $x.compressed_vertices_len = None;
        $x.compressed_vertices_data = None;
        $x.num_indices = None;
        $x.compressed_indices_len = None;
        $x.compressed_indices_data = None;
        $x.compressed_animation_vertices_len = None;
        $x.compressed_animation_vertices_data = None;
        elsewhere!(Any, $x);
    };
    ($T:ident, $x:ident) => {
        $x.is_locked = false;
        $x.editor_layer = None;
        $x.editor_layer_name = None;
        $x.editor_layer_visibility = None;
    };
}
macro_rules! wrapped {
    (DragPoint, $x:ident) => {};
    ($T:ident, $x:ident) => {
        wrapped_enum!(GameItemEnum::$T($x), $T)
    };
}
macro_rules! wrapped_enum {
    (GameItemEnum::$T:ident($x:ident), $U:ident) => {{
        let e = GameItemEnum::$T($x);
        let j = serde_json::to_value(&e).map_err(|e| e.to_string())?;
        match back::<GameItemEnum>("element of its kind", &j)? {
            GameItemEnum::$T(y) => y,
            y => return Err(format!("{} came back as {}", stringify!($T), y.type_name())),
        }
    }};
}
macro_rules! enum_trip {
    (DragPoint, $x:ident, $same:ident, $want:ident) => {};
    ($T:ident, $x:ident, $same:ident, $want:ident) => {
        let y = wrapped!($T, $x);
        $same(concat!(stringify!($T), " through the element enum"), &y, &$want)?;
    };
}
macro_rules! kind {
    ($T:ident, $m:ident, $name:literal, $tags:ident, $records:ident, $set:ident, $start:ident, $random:ident, $same:ident) => {
        #[allow(non_snake_case)]
        fn $m(r: &mut Rng, i: usize) -> R {
            FINITE.with(|f| f.set(true));
            let state = r.0;
            let draw = |r: &mut Rng| if i == 0 { $m::$T::default() } else { $random(r) };
            let x = draw(r);
            let (mut r1, mut r2) = (Rng(state), Rng(state));
            #[allow(unused_mut)]
            let mut want = draw(&mut r1);
            elsewhere!($T, want);
            let j = serde_json::to_value(&x).map_err(|e| e.to_string())?;
            $same(concat!($name, " from its JSON value"), &back($name, &j)?, &want)?;
            let t = serde_json::to_string_pretty(&x).map_err(|e| e.to_string())?;
            $same(concat!($name, " from its JSON text"), &back_text($name, &t)?, &want)?;
            let _again = draw(&mut r2);
            enum_trip!($T, _again, $same, want);
            Ok(())
        }
    };
}
for_each_kind!(kind);

/// fields kept in the wrapper for numbers without a JSON form
fn special_numbers(r: &mut Rng, _: usize) -> R {
    FINITE.with(|f| f.set(true));
    let mut x = random_Light(r);
    (x.fade_speed_up, x.fade_speed_down) = (odd(r), odd(r));
    let t = serde_json::to_string(&x).map_err(|e| e.to_string())?;
    let y: light::Light = back_text("light", &t)?;
    bits("fade_speed_up", y.fade_speed_up, x.fade_speed_up)?;
    bits("fade_speed_down", y.fade_speed_down, x.fade_speed_down)?;
    let mut x = random_Bumper(r);
    x.ring_drop_offset = Some(odd(r));
    let y: bumper::Bumper = back("bumper", &serde_json::to_value(&x).map_err(|e| e.to_string())?)?;
    bits("ring_drop_offset", y.ring_drop_offset.ok_or("ring_drop_offset lost")?, x.ring_drop_offset.unwrap())?;
    let mut m = vpin::vpx::material::Material::default();
    (m.elasticity, m.elasticity_falloff, m.friction, m.scatter_angle) = (odd(r), odd(r), odd(r), odd(r));
    let y: vpin::vpx::material::Material = back_text("material", &serde_json::to_string(&m).map_err(|e| e.to_string())?)?;
    bits("elasticity", y.elasticity, m.elasticity)?;
    bits("elasticity_falloff", y.elasticity_falloff, m.elasticity_falloff)?;
    bits("friction", y.friction, m.friction)?;
    bits("scatter_angle", y.scatter_angle, m.scatter_angle)
}
fn generic_element(r: &mut Rng, _: usize) -> R {
    let draw = |r: &mut Rng| Generic { name: r.unicode(12), fields: (0..r.below(6)).map(|_| (r.latin1(4), r.bytes(40))).collect() };
    let mut r2 = Rng(r.0);
    let n = 25 + (r.0 % 900) as u32;
    let j = serde_json::to_value(GameItemEnum::Generic(n, draw(r))).map_err(|e| e.to_string())?;
    same("generic element", &back::<GameItemEnum>("generic", &j)?, &GameItemEnum::Generic(n, draw(&mut r2)))
}
fn drag_points(r: &mut Rng, _: usize) -> R {
    FINITE.with(|f| f.set(true));
    let n = r.below(5);
    let v: Vec<DragPoint> = (0..n).map(|_| random_DragPoint(r)).collect();
    let y: Vec<DragPoint> = back_text("drag points", &serde_json::to_string(&v).map_err(|e| e.to_string())?)?;
    same("drag points", &y, &v)
}
fn main() {
    let mut v = vec![
        Check { name: "numbers without a JSON form", n: 400, f: special_numbers },
        Check { name: "generic element", n: 200, f: generic_element },
        Check { name: "drag point list", n: 200, f: drag_points },
    ];
    macro_rules! push {
        ($T:ident, $m:ident, $name:literal, $($x:ident),*) => {
            v.push(Check { name: $name, n: 300, f: $m });
        };
    }
    for_each_kind!(push);
    main_with(&v);
}
