//! Meshes of primitives: raw vertex, index and animation bytes and their compressed form.
use crate::oracle::*;
use crate::{R, Rng, bytes_eq, check, same};
use flate2::{Compression, read::ZlibDecoder, write::ZlibEncoder};
use std::io::{Read, Write};
use vpin::vpx::gameitem::primitive::Primitive;

pub fn zip(b: &[u8], level: u32) -> Vec<u8> {
    let mut e = ZlibEncoder::new(vec![], Compression::new(level));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
pub fn unzip(what: &str, b: &[u8]) -> Result<Vec<u8>, String> {
    let mut o = vec![];
    ZlibDecoder::new(b).read_to_end(&mut o).map_err(|e| format!("{what}: {e}"))?;
    Ok(o)
}
/// 32 bytes per vertex, three indices per face, 24 bytes per vertex and animation frame
#[derive(Clone, PartialEq)]
pub struct Mesh {
    pub vertices: Vec<u8>,
    pub indices: Vec<u32>,
    pub frames: Option<Vec<Vec<u8>>>,
}
fn coord(r: &mut Rng) -> f32 {
    match r.below(5) {
        0 => r.finite(),
        1 => r.below(101) as f32 / 100.0,
        2 => (r.u64() as f64 / u64::MAX as f64) as f32,
        3 => -0.0,
        _ => (r.below(200_000) as f32 - 100_000.0) / 64.0,
    }
}
/// a mesh of n vertices; odd: with infinite and not-a-number values (any bits) in its vertices
pub fn mesh(r: &mut Rng, n: usize, faces: usize, frames: Option<usize>, odd: bool) -> Mesh {
    let mut m = Mesh { vertices: vec![], indices: vec![], frames: None };
    let cheap = n > 500;
    for k in 0..n {
        for j in 0..8 {
            let mut v = if cheap { ((k * 8 + j) % 4099) as f32 / 8.0 } else { coord(r) };
            if j == 6 || j == 7 {
                v = if cheap { (k % 1025) as f32 / 1024.0 } else if r.chance(3) { r.finite() } else { coord(r) };
            }
            let mut b = f(v);
            if odd && r.chance(6) {
                b = if r.bool() { le32(0x7f80_0000 | r.u32()) } else { f(r.f32()) };
            }
            m.vertices.extend(b);
        }
    }
    if n > 0 {
        for k in 0..faces * 3 {
            m.indices.push(if k == 0 { n as u32 - 1 } else if r.chance(8) { n as u32 - 1 } else { r.below(n) as u32 });
        }
    }
    m.frames = frames.map(|c| {
        (0..c)
            .map(|_| (0..n * 6).flat_map(|k| f(if cheap { (k % 511) as f32 } else { coord(r) })).collect())
            .collect()
    });
    m
}
pub fn wide(m: &Mesh) -> bool {
    m.vertices.len() / 32 > 65535
}
pub fn index_bytes(m: &Mesh) -> Vec<u8> {
    m.indices.iter().flat_map(|i| if wide(m) { le32(*i) } else { le16(*i as u16) }).collect()
}
pub fn put(p: &mut Primitive, m: &Mesh, level: u32) {
    let (v, i) = (zip(&m.vertices, level), zip(&index_bytes(m), level));
    p.num_vertices = Some(m.vertices.len() as u32 / 32);
    p.compressed_vertices_len = Some(v.len() as u32);
    p.compressed_vertices_data = Some(v);
    p.num_indices = Some(m.indices.len() as u32);
    p.compressed_indices_len = Some(i.len() as u32);
    p.compressed_indices_data = Some(i);
    p.compressed_animation_vertices_len = None;
    p.compressed_animation_vertices_data = None;
    if let Some(fs) = &m.frames {
        let d: Vec<Vec<u8>> = fs.iter().map(|b| zip(b, level)).collect();
        p.compressed_animation_vertices_len = Some(d.iter().map(|b| b.len() as u32).collect());
        p.compressed_animation_vertices_data = Some(d);
    }
}
pub fn no_mesh(p: &mut Primitive) {
    p.num_vertices = None;
    p.compressed_vertices_len = None;
    p.compressed_vertices_data = None;
    p.num_indices = None;
    p.compressed_indices_len = None;
    p.compressed_indices_data = None;
    p.compressed_animation_vertices_len = None;
    p.compressed_animation_vertices_data = None;
}
/// the mesh in the primitive is this one, and what is declared about it is true
pub fn mesh_same(what: &str, p: &Primitive, m: &Mesh) -> R {
    let v = p.compressed_vertices_data.as_ref().ok_or_else(|| format!("{what}: no vertices"))?;
    let i = p.compressed_indices_data.as_ref().ok_or_else(|| format!("{what}: no indices"))?;
    bytes_eq(&format!("{what}: vertices"), &unzip(what, v)?, &m.vertices)?;
    bytes_eq(&format!("{what}: indices"), &unzip(what, i)?, &index_bytes(m))?;
    same(&format!("{what}: vertex count"), &p.num_vertices, &Some(m.vertices.len() as u32 / 32))?;
    same(&format!("{what}: index count"), &p.num_indices, &Some(m.indices.len() as u32))?;
    same(&format!("{what}: length of the compressed vertices"), &p.compressed_vertices_len, &Some(v.len() as u32))?;
    same(&format!("{what}: length of the compressed indices"), &p.compressed_indices_len, &Some(i.len() as u32))?;
    match (&p.compressed_animation_vertices_data, &m.frames) {
        (None, None) => check(p.compressed_animation_vertices_len.is_none(), || format!("{what}: animation lengths without animation")),
        (Some(d), Some(fs)) => {
            same(&format!("{what}: frame count"), &d.len(), &fs.len())?;
            for (k, (g, w)) in d.iter().zip(fs).enumerate() {
                bytes_eq(&format!("{what}: frame {k}"), &unzip(what, g)?, w)?;
            }
            same(&format!("{what}: frame lengths"), &p.compressed_animation_vertices_len, &Some(d.iter().map(|b| b.len() as u32).collect()))
        }
        (g, w) => Err(format!("{what}: animation present {} instead of {}", g.is_some(), w.is_some())),
    }
}
