//! Whole tables in the file container: order, counts and identity of the parts, edits, and the signature.
use md2::Digest;
use replay::data::*;
use replay::gen_items::*;
use replay::oracle::*;
use replay::parts::*;
use replay::table::*;
use replay::*;
use std::collections::BTreeMap;
use std::io::{Cursor, Read};
use std::path::PathBuf;
use vpin::vpx::{self, AddImageResult, ExtractResult, VPX, VerifyResult, VpxFile, from_bytes, to_bytes};

type Streams = BTreeMap<String, Vec<u8>>;
fn e(x: impl std::fmt::Display) -> String {
    x.to_string()
}
fn opts(collide: bool, max: usize) -> Options {
    Options { collide, container: true, max }
}
/// the same table twice
fn twin(r: &mut Rng, o: &Options) -> (VPX, VPX) {
    let mut again = Rng(r.0);
    let x = table(r, o).0;
    (x, table(&mut again, o).0)
}

/// records as (tag, data), the script's length included in neither
fn hashed_records(d: &[u8], h: &mut md2::Md2) -> R {
    let mut p = 0;
    while p < d.len() {
        let n = u32::from_le_bytes(d[p..p + 4].try_into().unwrap()) as usize;
        if &d[p + 4..p + 8] == b"CODE" {
            let k = u32::from_le_bytes(d[p + 8..p + 12].try_into().unwrap()) as usize;
            h.update(b"CODE");
            h.update(&d[p + 12..p + 12 + k]);
            p += 12 + k;
        } else {
            h.update(&d[p + 4..p + 4 + n]);
            p += 4 + n;
        }
    }
    Ok(())
}
/// the signature as Visual Pinball computes it
fn mac(file: &[u8]) -> Result<Vec<u8>, String> {
    let m = streams(file)?;
    let mut cf = cfb::CompoundFile::open_strict(Cursor::new(file)).map_err(e)?;
    let mut h = md2::Md2::new();
    h.update(b"Visual Pinball");
    let mut raw = |h: &mut md2::Md2, n: &str| {
        if let Some(b) = m.get(n) {
            h.update(b);
        }
    };
    raw(&mut h, "/GameStg/Version");
    for n in ["TableName", "AuthorName", "TableVersion", "ReleaseDate", "AuthorEmail", "AuthorWebSite", "TableBlurb", "TableDescription", "TableRules", "Screenshot"] {
        raw(&mut h, &format!("/TableInfo/{n}"));
    }
    if let Some(b) = m.get("/GameStg/CustomInfoTags") {
        hashed_records(b, &mut h)?;
        for (t, d) in split(b)? {
            if t == "CUST" {
                let k = u32::from_le_bytes(d[..4].try_into().unwrap()) as usize;
                let s: String = d[4..4 + k].iter().take_while(|b| **b != 0).map(|b| *b as char).collect();
                let p = format!("TableInfo/{s}");
                if cf.is_stream(&p) {
                    let mut v = vec![];
                    cf.open_stream(&p).and_then(|mut s| s.read_to_end(&mut v)).map_err(e)?;
                    h.update(&v);
                }
            }
        }
    }
    if let Some(b) = m.get("/GameStg/GameData") {
        hashed_records(b, &mut h)?;
    }
    let mut i = 0;
    while let Some(b) = m.get(&format!("/GameStg/Collection{i}")) {
        hashed_records(b, &mut h)?;
        i += 1;
    }
    Ok(h.finalize().to_vec())
}
fn signed(file: &[u8]) -> R {
    let m = streams(file)?;
    stream_eq(&m, "/GameStg/MAC", &mac(file)?)
}

fn tables(r: &mut Rng, i: usize) -> R {
    let (x, want) = twin(r, &opts(i % 3 == 0, if i % 8 == 0 { 40 } else { 7 }));
    let b = to_bytes(&x).map_err(e)?;
    table_same("writing", x, want, None)?;
    let again = from_bytes(&b).map_err(e)?;
    let m = streams(&b)?;
    stream_eq(&m, "/GameStg/Version", &le32(again.version.u32()))?;
    for (name, n) in [("GameItem", again.gameitems.len()), ("Image", again.images.len()), ("Sound", again.sounds.len()), ("Font", again.fonts.len()), ("Collection", again.collections.len())] {
        no_more(&m, &format!("/GameStg/{name}"), n)?;
    }
    for (k, c) in again.collections.iter().enumerate() {
        stream_eq(&m, &format!("/GameStg/Collection{k}"), &collection_bytes(c))?;
    }
    for (k, s) in again.sounds.iter().enumerate() {
        stream_eq(&m, &format!("/GameStg/Sound{k}"), &sound_bytes(s, again.version.u32()))?;
    }
    for (k, f) in again.fonts.iter().enumerate() {
        stream_eq(&m, &format!("/GameStg/Font{k}"), &font_bytes(f))?;
    }
    signed(&b)
}
fn read_back(r: &mut Rng, i: usize) -> R {
    let (x, want) = twin(r, &opts(i % 3 == 0, if i % 8 == 0 { 40 } else { 7 }));
    let b = to_bytes(&x).map_err(e)?;
    table_same("read back", from_bytes(&b).map_err(e)?, want, None)?;
    // part by part from an open file
    let mut data = b.clone();
    let mut f = VpxFile::open(Cursor::new(&mut data)).map_err(e)?;
    let y = VPX {
        custominfotags: f.read_custominfotags().map_err(e)?,
        info: f.read_tableinfo().map_err(e)?,
        version: f.read_version().map_err(e)?,
        gamedata: f.read_gamedata().map_err(e)?,
        gameitems: f.read_gameitems().map_err(e)?,
        images: f.read_images().map_err(e)?,
        sounds: f.read_sounds().map_err(e)?,
        fonts: f.read_fonts().map_err(e)?,
        collections: f.read_collections().map_err(e)?,
    };
    table_same("read part by part", y, x, None)
}
/// a history of additions and replacements, next to lists kept by hand
fn edits(r: &mut Rng, _: usize) -> R {
    let o = opts(true, 4);
    let (mut x, mut want) = twin(r, &o);
    for step in 0..1 + r.below(12) {
        let mut again = Rng(r.0);
        match r.below(4) {
            0 => {
                again.below(4);
                x.add_game_item(item(r, &o).0);
                want.gameitems.push(item(&mut again, &o).0);
                want.gamedata.gameitems_size = want.gameitems.len() as u32;
            }
            1 => {
                again.below(4);
                let c = code(r);
                x.set_script(c.string.clone());
                want.gamedata.set_code(code(&mut again).string);
            }
            _ => {
                again.below(4);
                let n = *r.pick(&["one", "ONE", "One", "two", "größe", "GRÖSSE", "grÖße", "", "a b", "A b"]);
                again.pick(&["one", "ONE", "One", "two", "größe", "GRÖSSE", "grÖße", "", "a b", "A b"]);
                let (mut p, mut q) = (picture(r, &o), picture(&mut again, &o));
                p.name = n.into();
                q.name = n.into();
                // the same letters, A to Z in any case
                let at = want.images.iter().position(|i| i.name.to_ascii_lowercase() == n.to_ascii_lowercase());
                let res = x.add_or_replace_image(p);
                match (at, res) {
                    (Some(k), AddImageResult::Replaced(old)) => {
                        image_same(&format!("step {step}: the image replaced"), &old, &want.images[k])?;
                        want.images[k] = q;
                    }
                    (None, AddImageResult::Added) => {
                        want.images.push(q);
                        want.gamedata.images_size = want.images.len() as u32;
                    }
                    (k, _) => return Err(format!("step {step}: image {n:?}: existing position {k:?}, but the call did the other thing")),
                }
            }
        }
    }
    check(x.gamedata.gameitems_size as usize == x.gameitems.len() && x.gamedata.images_size as usize == x.images.len(), || "counts differ from the lists after edits".into())?;
    let b = to_bytes(&x).map_err(e)?;
    signed(&b)?;
    let y = from_bytes(&b).map_err(e)?;
    table_same("edited, written, read", y, want, None)
}
/// the settings stream with the lock record changed
fn only_lock_changed(a: &[u8], b: &[u8], counter: u32) -> R {
    let cut = |d: &[u8]| -> Result<(Vec<(Vec<u8>, Vec<u8>)>, Option<u32>), String> {
        let (mut v, mut lock, mut p) = (vec![], None, 0);
        while p < d.len() {
            let n = u32::from_le_bytes(d[p..p + 4].try_into().unwrap()) as usize;
            let mut end = p + 4 + n;
            if &d[p + 4..p + 8] == b"CODE" {
                end = p + 12 + u32::from_le_bytes(d[p + 8..p + 12].try_into().unwrap()) as usize;
            }
            if &d[p + 4..p + 8] == b"TLCK" {
                check(n == 8 && lock.is_none(), || "odd lock record".into())?;
                lock = Some(u32::from_le_bytes(d[p + 8..p + 12].try_into().unwrap()));
            } else {
                v.push((d[p + 4..p + 8].to_vec(), d[p..end].to_vec()));
            }
            p = end;
        }
        Ok((v, lock))
    };
    let (x, _) = cut(a)?;
    let (y, lock) = cut(b)?;
    same("lock record", &lock, &Some(counter))?;
    same("records other than the lock", &y.len(), &x.len())?;
    for (k, l) in x.iter().zip(&y) {
        check(k == l, || format!("record {} changed with the lock", String::from_utf8_lossy(&k.0)))?;
    }
    Ok(())
}
fn others_same(what: &str, a: &Streams, b: &Streams) -> R {
    for (k, v) in a {
        if k != "/GameStg/GameData" && k != "/GameStg/MAC" {
            stream_eq(b, k, v).map_err(|x| format!("{what}: {x}"))?;
        }
    }
    same(&format!("{what}: number of streams"), &b.len(), &a.len())
}
/// a history of operations on an open file
fn histories(r: &mut Rng, _: usize) -> R {
    let (mut x, _) = twin(r, &opts(false, 4));
    if r.bool() {
        x.gamedata.locked = Some(*r.pick(&[0, 1, 2, 7, u32::MAX - 1, u32::MAX]));
    }
    let mut counter = x.gamedata.locked;
    let mut data = to_bytes(&x).map_err(e)?;
    for step in 0..1 + r.below(7) {
        let what = format!("step {step}");
        let before = streams(&data)?;
        let raw = data.clone();
        let locked = counter.unwrap_or(0) % 2 == 1;
        let op = r.below(4);
        {
            let mut f = VpxFile::open_rw(Cursor::new(&mut data)).map_err(e)?;
            match op {
                0 | 1 => {
                    let changed = if op == 0 { f.lock() } else { f.unlock() }.map_err(e)?;
                    same(&format!("{what}: whether {} changed the file", ["lock", "unlock"][op]), &changed, &(locked == (op == 1)))?;
                    if changed {
                        counter = Some(counter.unwrap_or(0).wrapping_add(1));
                    }
                    same(&format!("{what}: locked afterwards"), &f.is_locked().map_err(e)?, &(op == 0))?;
                }
                2 => same(&format!("{what}: is_locked"), &f.is_locked().map_err(e)?, &locked)?,
                _ => {
                    let mut g = random_settings(r);
                    if x.version.u32() != 1080 {
                        g.is_10_8_0_beta1_to_beta4 = false;
                    }
                    (g.gameitems_size, g.images_size, g.sounds_size) = (x.gamedata.gameitems_size, x.gamedata.images_size, x.gamedata.sounds_size);
                    (g.fonts_size, g.collections_size) = (x.gamedata.fonts_size, x.gamedata.collections_size);
                    counter = g.locked;
                    f.write_gamedata(&g).map_err(e)?;
                    x.gamedata = g;
                    x.gamedata.locked = counter;
                }
            }
        }
        let after = streams(&data)?;
        others_same(&what, &before, &after)?;
        match op {
            0 | 1 if locked == (op == 1) => only_lock_changed(&before["/GameStg/GameData"], &after["/GameStg/GameData"], counter.unwrap()).map_err(|e| format!("{what}: {e}"))?,
            3 => {}
            _ => bytes_eq(&format!("{what}: the file"), &data, &raw)?,
        }
        signed(&data).map_err(|x| format!("{what}: {x}"))?;
        x.gamedata.locked = counter;
        same_GameData(&format!("{what}: settings"), &from_bytes(&data).map_err(e)?.gamedata, &x.gamedata)?;
    }
    Ok(())
}
struct Scratch(PathBuf);
impl Scratch {
    fn new(k: u64) -> Result<Scratch, String> {
        let p = std::env::temp_dir().join(format!("vpin-replay-{}-{k}", std::process::id()));
        std::fs::create_dir_all(&p).map_err(e)?;
        Ok(Scratch(p))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn verified(what: &str, p: &PathBuf, want: bool) -> R {
    match vpx::verify(p) {
        VerifyResult::Ok(q) => check(want && q == *p, || format!("{what}: verifies")),
        VerifyResult::Failed(_, m) => check(!want, || format!("{what}: does not verify: {m}")),
    }
}
/// changes a byte of a stream's contents in place (no record's tag or length)
fn tamper(r: &mut Rng, file: &mut Vec<u8>, name: &str) -> Result<bool, String> {
    let m = streams(file)?;
    let Some(d) = m.get(name) else { return Ok(false) };
    let mut d = d.clone();
    if d.is_empty() {
        return Ok(false);
    }
    let biff = name.starts_with("/GameStg/") && name != "/GameStg/Version" && name != "/GameStg/MAC";
    let mut places = vec![];
    if biff {
        let mut p = 0;
        while p < d.len() {
            let n = u32::from_le_bytes(d[p..p + 4].try_into().unwrap()) as usize;
            if &d[p + 4..p + 8] == b"CODE" {
                let k = u32::from_le_bytes(d[p + 8..p + 12].try_into().unwrap()) as usize;
                places.extend(p + 12..p + 12 + k);
                p += 12 + k;
            } else {
                if &d[p + 4..p + 8] != b"CUST" {
                    places.extend(p + 8..p + 4 + n);
                }
                p += 4 + n;
            }
        }
    } else {
        places.extend(0..d.len());
    }
    if places.is_empty() {
        return Ok(false);
    }
    let at = *r.pick(&places);
    d[at] ^= 1 << r.below(8);
    let mut cf = cfb::CompoundFile::open_strict(Cursor::new(file)).map_err(e)?;
    use std::io::Write;
    cf.create_stream(name).and_then(|mut s| s.write_all(&d)).map_err(e)?;
    cf.flush().map_err(e)?;
    Ok(true)
}
const SIGNED: [&str; 14] = [
    "/GameStg/Version", "/TableInfo/TableName", "/TableInfo/AuthorName", "/TableInfo/TableVersion", "/TableInfo/ReleaseDate", "/TableInfo/AuthorEmail", "/TableInfo/AuthorWebSite",
    "/TableInfo/TableBlurb", "/TableInfo/TableDescription", "/TableInfo/TableRules", "/TableInfo/Screenshot", "/GameStg/GameData", "/GameStg/Collection0", "/GameStg/MAC",
];
/// the operations on files on disk
fn files(r: &mut Rng, i: usize) -> R {
    let dir = Scratch::new(r.0 ^ i as u64)?;
    let p = dir.0.join("table.vpx");
    let (x, want) = twin(r, &opts(false, 5));
    vpx::write(&p, &x).map_err(e)?;
    verified("written", &p, true)?;
    table_same("file read back", vpx::read(&p).map_err(e)?, x, None)?;
    let data = std::fs::read(&p).map_err(e)?;
    signed(&data)?;
    // the script out and in
    let vbs = dir.0.join("table.vbs");
    same("script place", &vpx::vbs_path_for(&p), &vbs)?;
    match vpx::extractvbs(&p, None, false).map_err(e)? {
        ExtractResult::Extracted(q) => same("script place", &q, &vbs)?,
        ExtractResult::Existed(_) => return Err("script was not extracted".into()),
    }
    same("script in its file", &std::fs::read_to_string(&vbs).map_err(e)?, &want.gamedata.code.string)?;
    std::fs::write(&vbs, "kept").map_err(e)?;
    check(matches!(vpx::extractvbs(&p, None, false).map_err(e)?, ExtractResult::Existed(_)), || "script was overwritten unasked".into())?;
    same("script file left alone", &std::fs::read_to_string(&vbs).map_err(e)?.as_str(), &"kept")?;
    let script = code(r).string;
    std::fs::write(&vbs, &script).map_err(e)?;
    vpx::importvbs(&p, None).map_err(e)?;
    verified("script imported", &p, true)?;
    let mut want = want;
    want.gamedata.set_code(script);
    others_same("script imported", &streams(&data)?, &streams(&std::fs::read(&p).map_err(e)?)?)?;
    let y = vpx::read(&p).map_err(e)?;
    table_same("script imported", y, want, None)?;
    // compacting
    let before = streams(&std::fs::read(&p).map_err(e)?)?;
    vpx::compact(&p).map_err(e)?;
    let data = std::fs::read(&p).map_err(e)?;
    same("compacted: streams", &streams(&data)?, &before)?;
    verified("compacted", &p, true)?;
    // any change to signed content shows
    for n in SIGNED {
        let mut d = data.clone();
        if tamper(r, &mut d, n)? {
            std::fs::write(&p, &d).map_err(e)?;
            verified(&format!("{n} changed"), &p, false)?;
        }
    }
    Ok(())
}
fn pixels(b: &[u8]) -> Result<image::RgbaImage, String> {
    Ok(image::load_from_memory(b).map_err(e)?.to_rgba8())
}
/// converting images keeps their pixels and everything else
fn webp(r: &mut Rng, _: usize) -> R {
    let mut o = opts(false, 10);
    o.collide = true;
    let (x, _) = twin(r, &o);
    let mut data = to_bytes(&x).map_err(e)?;
    let before = streams(&data)?;
    {
        let mut f = VpxFile::open_rw(Cursor::new(&mut data)).map_err(e)?;
        f.images_to_webp().map_err(e)?;
    }
    let after = streams(&data)?;
    let y = from_bytes(&data).map_err(e)?;
    same("number of images", &y.images.len(), &x.images.len())?;
    for (k, v) in &before {
        if !k.starts_with("/GameStg/Image") {
            stream_eq(&after, k, v)?;
        }
    }
    for (k, (a, b)) in x.images.iter().zip(&y.images).enumerate() {
        let ext = a.ext().to_lowercase();
        let shot = match (&a.jpeg, &a.bits) {
            (Some(j), _) if ext == "png" => image::load_from_memory_with_format(&j.data, image::ImageFormat::Png).ok().map(|i| i.to_rgba8()),
            (_, Some(_)) if ext == "bmp" => {
                same(&format!("image {k}: extension"), &b.ext().as_str(), &"webp")?;
                check(b.bits.is_none() && b.jpeg.is_some(), || format!("image {k}: not converted"))?;
                same(&format!("image {k}: size"), &pixels(&b.jpeg.as_ref().unwrap().data)?.dimensions(), &(a.width, a.height))?;
                continue;
            }
            _ => None,
        };
        match shot {
            Some(s) => {
                same(&format!("image {k}: extension"), &b.ext().as_str(), &"webp")?;
                let got = b.jpeg.as_ref().ok_or("picture lost").and_then(|j| pixels(&j.data).map_err(|_| "not a picture"))?;
                check(got == s, || format!("image {k}: pixels changed"))?;
                same(&format!("image {k}: name"), &b.name, &a.name)?;
            }
            None => stream_eq(&after, &format!("/GameStg/Image{k}"), &before[&format!("/GameStg/Image{k}")])?,
        }
    }
    Ok(())
}
fn main() {
    main_with(&[
        Check { name: "tables", n: 120, f: tables },
        Check { name: "read back", n: 120, f: read_back },
        Check { name: "edits", n: 150, f: edits },
        Check { name: "histories", n: 100, f: histories },
        Check { name: "files", n: 60, f: files },
        Check { name: "webp", n: 40, f: webp },
    ]);
}
