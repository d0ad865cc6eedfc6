//! Meshes of primitives: unpacked, written to mesh files of every format, read back and packed again.
use replay::mesh::*;
use replay::*;
use std::path::Path;
use vpin::filesystem::MemoryFileSystem;
use vpin::vpx::VPX;
use vpin::vpx::expanded::{ExpandOptions, PrimitiveMeshFormat, read_fs, write_fs};
use vpin::vpx::gameitem::GameItemEnum;
use vpin::vpx::gameitem::primitive::Primitive;

const FORMATS: [PrimitiveMeshFormat; 3] = [PrimitiveMeshFormat::Obj, PrimitiveMeshFormat::Glb, PrimitiveMeshFormat::Gltf];

fn unpack(p: &Primitive, m: &Mesh) -> R {
    let x = p.read_mesh().map_err(|e| e.to_string())?.ok_or("no mesh")?;
    let v: Vec<u8> = x.vertices.iter().flat_map(|v| v.vpx_encoded_vertex).collect();
    bytes_eq("encoded vertices", &v, &m.vertices)?;
    let v: Vec<u8> = x
        .vertices
        .iter()
        .flat_map(|v| [v.vertex.x, v.vertex.y, v.vertex.z, v.vertex.nx, v.vertex.ny, v.vertex.nz, v.vertex.tu, v.vertex.tv].into_iter().flat_map(f32::to_le_bytes).collect::<Vec<u8>>())
        .collect();
    bytes_eq("vertex fields", &v, &m.vertices)?;
    let i: Vec<u32> = x.indices.iter().flat_map(|t| [t.i0 as u32, t.i1 as u32, t.i2 as u32]).collect();
    same("indices", &i, &m.indices)?;
    check(x.indices.iter().all(|t| [t.i0, t.i1, t.i2].into_iter().all(|k| k >= 0 && (k as usize) < x.vertices.len().max(1))), || "an index became invalid".into())
}
fn through(items: Vec<(String, Mesh)>, format: PrimitiveMeshFormat, level: u32) -> R {
    let mut v = VPX::default();
    for (name, m) in &items {
        let mut p = Primitive { name: name.clone(), ..Default::default() };
        put(&mut p, m, level);
        unpack(&p, m)?;
        v.gameitems.push(GameItemEnum::Primitive(p));
    }
    let fs = MemoryFileSystem::new();
    let dir = Path::new("t");
    write_fs(&v, &dir, &ExpandOptions::new().mesh_format(format), &fs).map_err(|e| e.to_string())?;
    let y = read_fs(&dir, &fs).map_err(|e| e.to_string())?;
    same("item count", &y.gameitems.len(), &items.len())?;
    for (g, (name, m)) in y.gameitems.iter().zip(&items) {
        let GameItemEnum::Primitive(p) = g else { return Err("not a primitive".into()) };
        mesh_same(&format!("{name:?} through {format:?}"), p, m)?;
        unpack(p, m)?;
    }
    Ok(())
}
fn size(r: &mut Rng) -> (usize, usize) {
    (*r.pick(&[1, 2, 3, 4, 7, 30, 120]), *r.pick(&[0, 1, 2, 5, 40]))
}
fn frames(r: &mut Rng) -> Option<usize> {
    if r.chance(3) { Some(1 + r.below(12)) } else { None }
}
fn small(r: &mut Rng, i: usize) -> R {
    let (n, f) = size(r);
    let c = frames(r);
    let m = mesh(r, n, f, c, false);
    through(vec![("p".into(), m)], FORMATS[i % 3], r.below(10) as u32)
}
/// infinite and not-a-number values, with any bits, in the vertices
fn odd(r: &mut Rng, i: usize) -> R {
    let (n, f) = size(r);
    let m = mesh(r, n, f, None, true);
    through(vec![("p".into(), m)], FORMATS[i % 3], 6)
}
/// primitives whose files could be taken for each other's
fn names(r: &mut Rng, i: usize) -> R {
    let pool = ["p", "P", "p_anim_0", "p_anim_1", "p_Anim_0", "p_anim_0_", "p_anim", "p_anim_", "json", "JSON", ".json", "p.json", "p_json", "p__1", "p__1_anim_0", "", "unnamed", "o name\nwith lines", "# c", "日本", "p_anim_00", "p anim 2", "obj", "a.obj"];
    let mut v = vec![];
    for _ in 0..2 + r.below(5) {
        let (n, f) = (1 + r.below(4), r.below(3));
        let c = if r.bool() { Some(1 + r.below(3)) } else { None };
        v.push((r.pick(&pool).to_string(), mesh(r, n, f, c, false)));
    }
    through(v, FORMATS[i % 3], 6)
}
/// around the limit of two-byte indices
fn limit(r: &mut Rng, i: usize) -> R {
    let n = [65535, 65536, 70001][i / 3 % 3];
    let c = if i == 1 { Some(1) } else { None };
    let mut m = mesh(r, n, 30, c, false);
    for (k, v) in [n as u32 - 1, 0, 65534.min(n as u32 - 1), 65535.min(n as u32 - 1), 32768, 255, 256].into_iter().enumerate() {
        m.indices[k] = v;
    }
    through(vec![("big".into(), m)], FORMATS[i % 3], 1)
}
fn main() {
    main_with(&[
        Check { name: "meshes", n: 900, f: small },
        Check { name: "odd numbers", n: 600, f: odd },
        Check { name: "names", n: 600, f: names },
        Check { name: "index width", n: 9, f: limit },
    ]);
}
