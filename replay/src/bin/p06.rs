//! Images, sounds, fonts, collections, table info and custom info names: written bytes are the format's, reading them gives the value back.
use replay::oracle::*;
use replay::parts::*;
use replay::*;
use vpin::vpx::biff::{BiffRead, BiffReader, BiffWrite, BiffWriter};
use vpin::vpx::image::ImageData;
use vpin::vpx::version::Version;
use vpin::vpx::{VPX, collection, custominfotags, font, from_bytes, to_bytes};

fn images(r: &mut Rng, _: usize) -> R {
    let x = image(r);
    let mut w = BiffWriter::new();
    x.biff_write(&mut w);
    let d = w.get_data().to_vec();
    // the records of the picture: a reader that knows the format finds each of them
    draw::chunks_eq("image", &d, image_chunks(&x))?;
    image_same("image read back", &ImageData::biff_read(&mut BiffReader::new(&d)), &x)?;
    // in any order, with unknown records between
    let mut c = image_chunks(&x);
    if x.alpha_test_value.to_bits() == 0 && x.bits.is_none() && r.bool() {
        c.retain(|k| k.0 != "ALTV");
    }
    r.shuffle(&mut c);
    for _ in 0..r.below(3) {
        let at = r.below(c.len() + 1);
        c.insert(at, ("ZZZZ".into(), rec("ZZZZ", &r.bytes(40))));
    }
    let b = [draw::concat(c), endb()].concat();
    image_same("image from records in another order", &ImageData::biff_read(&mut BiffReader::new(&b)), &x)
}
fn fonts(r: &mut Rng, _: usize) -> R {
    let x = font_file(r);
    let b = font::write(&x);
    bytes_eq("font file", &b, &font_bytes(&x))?;
    font_same("font read back", &font::read(&b), &x)?;
    let mut c = vec![rec("PATH", &str8(&x.path)), rec("NAME", &str8(&x.name)), [rec("SIZE", &le32(x.data.len() as u32)), rec("ABCD", &r.bytes(9)), rec("DATA", &x.data)].concat(), rec("QQQQ", &r.bytes(30))];
    r.shuffle(&mut c);
    font_same("font from records in another order", &font::read(&[c.concat(), endb()].concat()), &x)
}
fn collections(r: &mut Rng, _: usize) -> R {
    let x = collection(r);
    let b = collection::write(&x);
    bytes_eq("collection", &b, &collection_bytes(&x))?;
    same("collection read back", &collection::read(&b), &x)?;
    let mut c = vec![
        rec("NAME", &wide(&x.name)),
        x.items.iter().map(|i| [rec("ITEM", &wide(i)), if r.chance(5) { rec("ZZZZ", &r.bytes(9)) } else { vec![] }].concat()).collect::<Vec<_>>().concat(),
        rec("EVNT", &b32(x.fire_events)),
        rec("SSNG", &b32(x.stop_single_events)),
        rec("GREL", &b32(x.group_elements)),
        rec("QQQQ", &r.bytes(30)),
    ];
    r.shuffle(&mut c);
    same("collection from records in another order", &collection::read(&[c.concat(), endb()].concat()), &x)
}
fn custom(r: &mut Rng, _: usize) -> R {
    let x = custom_tags(r);
    let b = custominfotags::write_custominfotags(&x);
    bytes_eq("custom info names", &b, &custom_tags_bytes(&x))?;
    same("custom info names read back", &custominfotags::read_custominfotags(&b), &x)?;
    let with: Vec<u8> = x.iter().map(|t| [rec("CUST", &str8(t)), rec("OTHR", &r.bytes(20))].concat()).collect::<Vec<_>>().concat();
    same("custom info names between unknown records", &custominfotags::read_custominfotags(&[with, endb()].concat()), &x)
}
/// more data than three bytes of length can say
fn large(r: &mut Rng, _: usize) -> R {
    let data: Vec<u8> = (0..(1usize << 24) + r.below(1000)).map(|k| (k >> 3) as u8).collect();
    let mut x = font_file(r);
    x.data = data.clone();
    font_same("large font", &font::read(&font::write(&x)), &x)?;
    let mut y = image(r);
    y.bits = None;
    let mut j = jpeg(r);
    j.data = data.clone();
    y.jpeg = Some(j);
    let mut w = BiffWriter::new();
    y.biff_write(&mut w);
    image_same("large image", &ImageData::biff_read(&mut BiffReader::new(w.get_data())), &y)
}
/// sounds are reached through a whole table
fn sounds(r: &mut Rng, _: usize) -> R {
    let version = *r.pick(&[1, 600, 1030, 1031, 1032, 1072, 1080, 1081, 100_000]);
    let mut v = VPX { version: Version::new(version), ..Default::default() };
    let n = r.below(4);
    for _ in 0..n {
        v.sounds.push(sound(r, version));
    }
    v.gamedata.sounds_size = n as u32;
    let b = to_bytes(&v).map_err(|e| e.to_string())?;
    let m = streams(&b)?;
    for (i, s) in v.sounds.iter().enumerate() {
        stream_eq(&m, &format!("/GameStg/Sound{i}"), &sound_bytes(s, version))?;
    }
    no_more(&m, "/GameStg/Sound", n)?;
    let y = from_bytes(&b).map_err(|e| e.to_string())?;
    same("sound count", &y.sounds.len(), &n)?;
    for (g, w) in y.sounds.iter().zip(&v.sounds) {
        sound_same("sound read back", g, w)?;
    }
    Ok(())
}
fn infos(r: &mut Rng, _: usize) -> R {
    let mut v = VPX { info: info(r), custominfotags: custom_tags(r), ..Default::default() };
    let b = to_bytes(&v).map_err(|e| e.to_string())?;
    let m = streams(&b)?;
    let want = info_streams(&mut v.info);
    for (k, w) in &want {
        stream_eq(&m, k, w)?;
    }
    same("info streams", &m.keys().filter(|k| k.starts_with("/TableInfo/")).count(), &want.len())?;
    stream_eq(&m, "/GameStg/CustomInfoTags", &custom_tags_bytes(&v.custominfotags))?;
    let y = from_bytes(&b).map_err(|e| e.to_string())?;
    info_same("table info read back", &y.info, &v.info)?;
    same("custom info names read back", &y.custominfotags, &v.custominfotags)
}
fn main() {
    main_with(&[
        Check { name: "large data", n: 2, f: large },
        Check { name: "images", n: 800, f: images },
        Check { name: "fonts", n: 300, f: fonts },
        Check { name: "collections", n: 300, f: collections },
        Check { name: "custom info names", n: 300, f: custom },
        Check { name: "sounds", n: 150, f: sounds },
        Check { name: "table info", n: 150, f: infos },
    ]);
}
