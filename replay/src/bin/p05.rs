//! Table-wide settings: the written stream is exactly the format's records for the version, and reading it gives the settings back.
use replay::data::*;
use replay::draw::*;
use replay::gen_items::*;
use replay::oracle::*;
use replay::*;
use vpin::vpx::biff::{BiffRead, BiffReader, BiffWrite, BiffWriter};
use vpin::vpx::gamedata::*;
use vpin::vpx::material::Material;
use vpin::vpx::renderprobe::RenderProbeWithGarbage;
use vpin::vpx::version::Version;

fn settings(r: &mut Rng, i: usize) -> R {
    let v = Version::new(random_version(r));
    let mut x = if i == 0 { GameData::default() } else { random_settings(r) };
    if i % 16 == 1 {
        // every optional field on its own decides where the records after it stand
        x.camera_layout_mode = Some(r.u32());
        x.bg_enable_fss = Some(r.bool());
    }
    let b = write_all_gamedata_records(&x, &v);
    chunks_eq("table settings", &b, records_GameData(&x))?;
    let y = read_all_gamedata_records(&b, &v);
    same_GameData("table settings read back", &y, &x)
}
/// streams with missing, reordered, repeated, over-long and unknown records
fn tolerant(r: &mut Rng, i: usize) -> R {
    let v = Version::new(random_version(r));
    let mut want = GameData::default();
    let mut tags: Vec<&str> = GAMEDATA_TAGS.to_vec();
    if i % 2 == 0 {
        r.shuffle(&mut tags);
    }
    let keep = 1 + r.below(4);
    let mut b = vec![];
    let mut prev = String::new();
    for t in tags {
        if r.below(4) >= keep {
            continue;
        }
        if r.chance(20) {
            b.extend(rec("QQQQ", &r.bytes(30)));
            prev = "QQQQ".into();
        }
        if t == "MASI" {
            // the count belongs to the two lists that follow
            want.materials_size = r.below(4) as u32;
            b.extend(rec("MASI", &le32(want.materials_size)));
        } else {
            if t == "EFSS" && v.u32() == 1080 && prev != "BOTM" && prev != "CLMO" {
                want.is_10_8_0_beta1_to_beta4 = true;
            }
            b.extend(set_GameData(t, &mut want, r));
        }
        prev = t.to_string();
    }
    b.extend(endb());
    same_GameData("settings from a hand-made stream", &read_all_gamedata_records(&b, &v), &want)
}
fn materials(r: &mut Rng, _: usize) -> R {
    let m = random_Material(r);
    let tint = color(r).1;
    let b = material_bytes(&m, &tint);
    let x = Material::biff_read(&mut BiffReader::new(&b));
    let mut w = BiffWriter::new();
    x.biff_write(&mut w);
    bytes_eq("material written", w.get_data(), &b)?;
    same_Material("material read back", &Material::biff_read(&mut BiffReader::new(w.get_data())), &x)
}
fn probes(r: &mut Rng, _: usize) -> R {
    // the fields are private: whatever the order of its records, a probe is written as the format says
    let c = probe_records(r);
    let trail = r.bytes(16);
    let want = [concat(c.clone()), endb(), trail.clone()].concat();
    let mut c = c;
    r.shuffle(&mut c);
    if r.bool() {
        c.push(("XXXX".into(), rec("XXXX", &r.bytes(9))));
    }
    let b = [concat(c), endb(), trail].concat();
    let x = RenderProbeWithGarbage::biff_read(&mut BiffReader::new(&b));
    let mut w = BiffWriter::new();
    x.biff_write(&mut w);
    bytes_eq("render probe written", w.get_data(), &want)?;
    same_dbg("render probe read back", &RenderProbeWithGarbage::biff_read(&mut BiffReader::new(&want)), &x)
}
fn main() {
    main_with(&[
        Check { name: "settings round trip", n: 400, f: settings },
        Check { name: "settings from hand-made streams", n: 300, f: tolerant },
        Check { name: "materials", n: 400, f: materials },
        Check { name: "render probes", n: 400, f: probes },
    ]);
}
