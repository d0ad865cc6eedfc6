//! Images, sounds, fonts, collections and table information: values together with the bytes of the file format.
use crate::draw::{self, Chunk};
use crate::oracle::*;
use crate::{R, Rng, bytes_eq, check, same, same_dbg};
use std::collections::{BTreeMap, HashMap};
use std::io::{Cursor, Read};
use vpin::vpx::collection::Collection;
use vpin::vpx::custominfotags::CustomInfoTags;
use vpin::vpx::font::FontData;
use vpin::vpx::image::{ImageData, ImageDataBits, ImageDataJpeg};
use vpin::vpx::lzw::to_lzw_blocks;
use vpin::vpx::sound::{OutputTarget, SoundData, WaveForm};
use vpin::vpx::tableinfo::TableInfo;

fn c(o: &mut Vec<Chunk>, t: &str, b: Vec<u8>) {
    o.push((t.to_string(), rec(t, &b)));
}
/// any bytes, often with the names of records in them
pub fn blob(r: &mut Rng, max: usize) -> Vec<u8> {
    let mut b: Vec<u8> = if r.chance(12) { (0..r.below(90_000)).map(|_| r.u64() as u8).collect() } else { r.bytes(max) };
    if r.chance(8) {
        return vec![];
    }
    for _ in 0..r.below(4) {
        let at = r.below(b.len() + 1);
        let t: [&[u8]; 6] = [b"ALTV", b"\x08\0\0\0ALTV", b"\x04\0\0\0ENDB", b"ENDB", b"\x04\0\0\0DATA", b"\0\0\0\0"];
        let t = t[r.below(6)];
        b.splice(at..at, t.iter().copied());
    }
    b
}
fn opt<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.bool() { Some(f(r)) } else { None }
}

// ---- images
pub fn jpeg(r: &mut Rng) -> ImageDataJpeg {
    ImageDataJpeg { path: r.latin1(30), name: r.latin1(30), internal_name: opt(r, |r| r.latin1(20)), data: blob(r, 300) }
}
pub fn image(r: &mut Rng) -> ImageData {
    let mut x = ImageData {
        name: r.latin1(30),
        internal_name: opt(r, |r| r.latin1(20)),
        path: r.latin1(40),
        width: r.u32(),
        height: r.u32(),
        link: opt(r, |r| if r.bool() { 1 } else { r.u32() }),
        alpha_test_value: r.f32(),
        is_opaque: opt(r, |r| r.bool()),
        is_signed: opt(r, |r| r.bool()),
        jpeg: None,
        bits: None,
        md5_hash: opt(r, |r| std::array::from_fn(|_| r.u8())),
    };
    match r.below(5) {
        0 => {}
        1 => {
            let n = r.below(200) * 4;
            let p: Vec<u8> = (0..n).map(|_| r.u8()).collect();
            x.bits = Some(ImageDataBits { lzw_compressed_data: to_lzw_blocks(&p) });
        }
        2 => x.bits = Some(ImageDataBits { lzw_compressed_data: to_lzw_blocks(&altv_pixels()) }),
        _ => x.jpeg = Some(jpeg(r)),
    }
    x
}
pub fn image_chunks(x: &ImageData) -> Vec<Chunk> {
    let mut o = vec![];
    c(&mut o, "NAME", str8(&x.name));
    if let Some(n) = &x.internal_name {
        c(&mut o, "INME", str8(n));
    }
    c(&mut o, "PATH", str8(&x.path));
    c(&mut o, "WDTH", le32(x.width));
    c(&mut o, "HGHT", le32(x.height));
    if let Some(l) = x.link {
        c(&mut o, "LINK", le32(l));
    }
    if let Some(j) = &x.jpeg {
        let mut i = vec![];
        c(&mut i, "NAME", str8(&j.name));
        if let Some(n) = &j.internal_name {
            c(&mut i, "INME", str8(n));
        }
        c(&mut i, "PATH", str8(&j.path));
        c(&mut i, "SIZE", le32(j.data.len() as u32));
        c(&mut i, "DATA", j.data.clone());
        o.push(("JPEG".into(), [rec4("JPEG", &[]), draw::concat(i), endb()].concat()));
    }
    // a bitmap ends where the ALTV record after it begins: the two stay together
    let altv = rec("ALTV", &f(x.alpha_test_value));
    match &x.bits {
        Some(b) => o.push(("BITS".into(), [rec4("BITS", &b.lzw_compressed_data), altv].concat())),
        None => o.push(("ALTV".into(), altv)),
    }
    if let Some(h) = &x.md5_hash {
        c(&mut o, "MD5H", h.to_vec());
    }
    if let Some(v) = x.is_opaque {
        c(&mut o, "OPAQ", b32(v));
    }
    if let Some(v) = x.is_signed {
        c(&mut o, "SIGN", b32(v));
    }
    o
}
pub fn image_same(what: &str, got: &ImageData, want: &ImageData) -> R {
    same_dbg(what, got, want)?;
    match (&got.jpeg, &want.jpeg) {
        (Some(g), Some(w)) => {
            same(&format!("{what}: jpeg internal name"), &g.internal_name, &w.internal_name)?;
            bytes_eq(&format!("{what}: jpeg data"), &g.data, &w.data)?;
        }
        (None, None) => {}
        _ => return Err(format!("{what}: file present on one side only")),
    }
    match (&got.bits, &want.bits) {
        (Some(g), Some(w)) => bytes_eq(&format!("{what}: bitmap"), &g.lzw_compressed_data, &w.lzw_compressed_data)?,
        (None, None) => {}
        _ => return Err(format!("{what}: bitmap present on one side only")),
    }
    Ok(())
}

// ---- sounds
/// paths together with whether the sound behind it is stored with a wave header
pub const SOUND_PATHS: [(&str, bool); 15] = [
    ("a.wav", true), ("B.WAV", true), ("dir\\x.wAv", true), ("/tmp/y.ogg.wav", true), ("* Backglass Output *", true), ("", true), ("noext", true), ("x.", true),
    ("a.mp3", false), ("b.OGG", false), ("x.wav.mp3", false), ("w.wave", false), ("flac.flac", false), ("m.wa", false), ("c:\\snd\\t.mid", false),
];
pub fn sound(r: &mut Rng, version: u32) -> SoundData {
    let (path, wav) = *r.pick(&SOUND_PATHS);
    let new = version >= 1031;
    SoundData {
        name: r.latin1(30),
        path: path.to_string(),
        wave_form: if wav {
            WaveForm { format_tag: r.u16(), channels: r.u16(), samples_per_sec: r.u32(), avg_bytes_per_sec: r.u32(), block_align: r.u16(), bits_per_sample: r.u16(), cb_size: r.u16() }
        } else {
            WaveForm::default()
        },
        data: blob(r, 300),
        internal_name: r.latin1(12),
        fade: if new { r.u32() } else { 0 },
        volume: if new { r.u32() } else { 0 },
        balance: if new { r.u32() } else { 0 },
        output_target: if r.bool() { OutputTarget::Table } else { OutputTarget::Backglass },
    }
}
pub fn sound_bytes(x: &SoundData, version: u32) -> Vec<u8> {
    let wav = SOUND_PATHS.iter().find(|p| p.0 == x.path).unwrap().1;
    let w = &x.wave_form;
    let mut b = [str8(&x.name), str8(&x.path), if x.internal_name.is_empty() { vec![1, 0, 0, 0, 0] } else { str8(&x.internal_name) }].concat();
    if wav {
        b.extend([le16(w.format_tag), le16(w.channels), le32(w.samples_per_sec), le32(w.avg_bytes_per_sec), le16(w.block_align), le16(w.bits_per_sample), le16(w.cb_size)].concat());
    }
    b.extend(le32(x.data.len() as u32));
    b.extend(&x.data);
    b.push(if x.output_target == OutputTarget::Table { 0 } else { 1 });
    if version >= 1031 {
        b.extend([le32(x.volume), le32(x.balance), le32(x.fade), le32(x.volume)].concat());
    }
    b
}
pub fn sound_same(what: &str, got: &SoundData, want: &SoundData) -> R {
    same_dbg(what, got, want)?;
    bytes_eq(&format!("{what}: samples"), &got.data, &want.data)
}
pub fn sound_copy(x: &SoundData) -> SoundData {
    let w = &x.wave_form;
    SoundData {
        name: x.name.clone(),
        path: x.path.clone(),
        wave_form: WaveForm { format_tag: w.format_tag, channels: w.channels, samples_per_sec: w.samples_per_sec, avg_bytes_per_sec: w.avg_bytes_per_sec, block_align: w.block_align, bits_per_sample: w.bits_per_sample, cb_size: w.cb_size },
        data: x.data.clone(),
        internal_name: x.internal_name.clone(),
        fade: x.fade,
        volume: x.volume,
        balance: x.balance,
        output_target: x.output_target.clone(),
    }
}

// ---- fonts, collections, custom info names
pub fn font_file(r: &mut Rng) -> FontData {
    FontData { name: r.latin1(30), path: r.latin1(60), data: blob(r, 400) }
}
pub fn font_bytes(x: &FontData) -> Vec<u8> {
    [rec("NAME", &str8(&x.name)), rec("PATH", &str8(&x.path)), rec("SIZE", &le32(x.data.len() as u32)), rec("DATA", &x.data), endb()].concat()
}
pub fn font_same(what: &str, got: &FontData, want: &FontData) -> R {
    same_dbg(what, got, want)?;
    bytes_eq(&format!("{what}: data"), &got.data, &want.data)
}
pub fn collection(r: &mut Rng) -> Collection {
    let n = *r.pick(&[0, 1, 2, 5, 40]);
    Collection {
        name: r.unicode(30),
        items: (0..n).map(|_| if r.chance(4) { "same".to_string() } else { r.unicode(20) }).collect(),
        fire_events: r.bool(),
        stop_single_events: r.bool(),
        group_elements: r.bool(),
    }
}
pub fn collection_bytes(x: &Collection) -> Vec<u8> {
    let mut o = vec![];
    c(&mut o, "NAME", wide(&x.name));
    for i in &x.items {
        c(&mut o, "ITEM", wide(i));
    }
    c(&mut o, "EVNT", b32(x.fire_events));
    c(&mut o, "SSNG", b32(x.stop_single_events));
    c(&mut o, "GREL", b32(x.group_elements));
    [draw::concat(o), endb()].concat()
}
pub fn custom_tags(r: &mut Rng) -> CustomInfoTags {
    let mut t: CustomInfoTags = vec![];
    for _ in 0..r.below(6) {
        let again = r.chance(4);
        t.push(match t.last() {
            Some(l) if again => l.clone(),
            _ => r.latin1(30),
        });
    }
    t
}
pub fn custom_tags_bytes(x: &CustomInfoTags) -> Vec<u8> {
    let mut o = vec![];
    for t in x {
        c(&mut o, "CUST", str8(t));
    }
    [draw::concat(o), endb()].concat()
}

// ---- table information: one stream per field
type Field = (&'static str, fn(&mut TableInfo) -> &mut Option<String>);
pub const INFO: [Field; 11] = [
    ("TableName", |t| &mut t.table_name),
    ("AuthorName", |t| &mut t.author_name),
    ("TableBlurb", |t| &mut t.table_blurb),
    ("TableRules", |t| &mut t.table_rules),
    ("AuthorEmail", |t| &mut t.author_email),
    ("ReleaseDate", |t| &mut t.release_date),
    ("TableSaveRev", |t| &mut t.table_save_rev),
    ("TableVersion", |t| &mut t.table_version),
    ("AuthorWebSite", |t| &mut t.author_website),
    ("TableSaveDate", |t| &mut t.table_save_date),
    ("TableDescription", |t| &mut t.table_description),
];
/// names a stream may have, distinct whatever their case
pub fn stream_names(r: &mut Rng, n: usize) -> Vec<String> {
    let pool = ["Custom", "my tag", "TableName2", "Screenshot1", "größe", "x.y", "日本", "a", "Ω", "very long name of a tag, 31 ch."];
    let mut v: Vec<String> = pool.iter().map(|s| s.to_string()).collect();
    r.shuffle(&mut v);
    v.truncate(n);
    v
}
pub fn info(r: &mut Rng) -> TableInfo {
    let mut t = TableInfo::default();
    for (_, f) in INFO {
        *f(&mut t) = opt(r, |r| if r.chance(8) { r.unicode(3000) } else { r.unicode(20) });
    }
    t.screenshot = opt(r, |r| blob(r, 200));
    let n = r.below(5);
    t.properties = stream_names(r, n).into_iter().map(|k| (k, r.unicode(20))).collect::<HashMap<_, _>>();
    t
}
/// the streams that hold the information
pub fn info_streams(t: &mut TableInfo) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for (n, f) in INFO {
        if let Some(s) = f(t) {
            m.insert(format!("/TableInfo/{n}"), utf16(s));
        }
    }
    if let Some(s) = &t.screenshot {
        m.insert("/TableInfo/Screenshot".into(), s.clone());
    }
    for (k, v) in &t.properties {
        m.insert(format!("/TableInfo/{k}"), utf16(v));
    }
    m
}
pub fn info_same(what: &str, got: &TableInfo, want: &TableInfo) -> R {
    same(what, got, want)
}
/// every stream of a compound file
pub fn streams(file: &[u8]) -> Result<BTreeMap<String, Vec<u8>>, String> {
    let mut cf = cfb::CompoundFile::open_strict(Cursor::new(file)).map_err(|e| format!("not a compound file: {e}"))?;
    let paths: Vec<_> = cf.walk().filter(|e| e.is_stream()).map(|e| e.path().to_path_buf()).collect();
    let mut m = BTreeMap::new();
    for p in paths {
        let mut b = vec![];
        cf.open_stream(&p).and_then(|mut s| s.read_to_end(&mut b)).map_err(|e| format!("{}: {e}", p.display()))?;
        m.insert(p.to_string_lossy().into_owned(), b);
    }
    Ok(m)
}
pub fn stream_eq(m: &BTreeMap<String, Vec<u8>>, name: &str, want: &[u8]) -> R {
    let g = m.get(name).ok_or_else(|| format!("stream {name} is missing"))?;
    bytes_eq(&format!("stream {name}"), g, want)
}
pub fn no_more(m: &BTreeMap<String, Vec<u8>>, prefix: &str, n: usize) -> R {
    let k = m.keys().filter(|k| k.strip_prefix(prefix).is_some_and(|x| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit()))).count();
    check(k == n, || format!("{k} streams {prefix}*, expected {n}"))
}
