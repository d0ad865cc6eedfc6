//! Extracting a table to a directory (kept in memory) and assembling it again.
use replay::table::*;
use replay::*;
use std::collections::HashSet;
use std::path::Path;
use vpin::filesystem::MemoryFileSystem;
use vpin::vpx::expanded::{ExpandOptions, PrimitiveMeshFormat, read_fs, write_fs};

const FORMATS: [PrimitiveMeshFormat; 3] = [PrimitiveMeshFormat::Obj, PrimitiveMeshFormat::Glb, PrimitiveMeshFormat::Gltf];

fn trip(r: &mut Rng, i: usize, o: &Options) -> R {
    let mut again = Rng(r.0);
    let (x, meshes) = table(r, o);
    let (want, _) = table(&mut again, o);
    let fs = MemoryFileSystem::new();
    let dir = Path::new("dir");
    write_fs(&x, &dir, &ExpandOptions::new().mesh_format(FORMATS[i % 3]), &fs).map_err(|e| format!("extract: {e}"))?;
    // on a file system that does not tell letter cases apart no file replaces another
    let files = fs.list_files();
    let mut seen = HashSet::new();
    for f in &files {
        check(seen.insert(f.to_lowercase()), || format!("two files named {f:?} but for their case"))?;
    }
    // every media part has a file of its own
    for (d, n) in [("sounds", x.sounds.len()), ("fonts", x.fonts.len()), ("images", x.images.iter().filter(|i| i.link != Some(1)).count())] {
        same(&format!("files in {d}"), &files.iter().filter(|f| f.starts_with(&format!("dir/{d}/"))).count(), &n)?;
    }
    same("files of elements", &files.iter().filter(|f| f.starts_with("dir/gameitems/") && f.ends_with(".json")).count(), &x.gameitems.len())?;
    let y = read_fs(&dir, &fs).map_err(|e| format!("assemble: {e}"))?;
    table_same("assembled", y, want, Some(&meshes))
}
fn unlike(r: &mut Rng, i: usize) -> R {
    trip(r, i, &Options { collide: false, container: false, max: 6 })
}
fn alike(r: &mut Rng, i: usize) -> R {
    trip(r, i, &Options { collide: true, container: false, max: 14 })
}
/// many parts: the order is kept
fn many(r: &mut Rng, i: usize) -> R {
    trip(r, i, &Options { collide: i % 2 == 0, container: false, max: 60 })
}
fn main() {
    main_with(&[
        Check { name: "tables", n: 200, f: unlike },
        Check { name: "names alike", n: 300, f: alike },
        Check { name: "many parts", n: 25, f: many },
    ]);
}
