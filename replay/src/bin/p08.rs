//! Bitmaps: compression and channel order.
use replay::oracle::*;
use replay::*;
use std::path::Path;
use vpin::filesystem::{FileSystem, MemoryFileSystem};
use vpin::vpx::VPX;
use vpin::vpx::biff::{BiffRead, BiffReader, BiffWrite, BiffWriter};
use vpin::vpx::expanded::{ExpandOptions, read_fs, write_fs};
use vpin::vpx::image::{ImageData, ImageDataBits};
use vpin::vpx::lzw::{from_lzw_blocks, to_lzw_blocks};

fn lzw_one(d: &[u8]) -> R {
    let c = to_lzw_blocks(d);
    let (raw, sizes) = unblock(&c)?;
    for (i, n) in sizes.iter().enumerate() {
        let last = i + 1 == sizes.len();
        check(*n >= 1 && *n <= 254 && (last || *n == 254), || format!("block {i} of {} has {n} bytes", sizes.len()))?;
    }
    let (dec, used) = unlzw(&raw)?;
    bytes_eq(&format!("independent decoder on {} bytes", d.len()), &dec, d)?;
    same("the end code is in the last byte", &used, &raw.len())?;
    bytes_eq(&format!("decompressed {} bytes", d.len()), &from_lzw_blocks(&c), d)
}
fn pixels(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(6) {
        0 => vec![r.u8(); n],
        1 => (0..n).map(|_| r.u64() as u8).collect(),
        2 => (0..n).map(|i| (i / 4 + i % 4) as u8).collect(),
        3 => (0..n).map(|i| if i % 4 == 3 { 255 } else { r.below(3) as u8 }).collect(),
        4 => {
            let k = r.range(1, 9);
            let p: Vec<u8> = (0..k).map(|_| r.u64() as u8).collect();
            (0..n).map(|i| p[i % k]).collect()
        }
        _ => (0..n).map(|i| (i * i / 7) as u8).collect(),
    }
}
fn every_length(r: &mut Rng, i: usize) -> R {
    // every length up to 2047 in turn
    for k in 0..8 {
        let d = pixels(r, i * 8 + k);
        lzw_one(&d)?;
    }
    Ok(())
}
fn large(r: &mut Rng, i: usize) -> R {
    // enough to fill and reset the code table
    let n = 4000 + r.below(60_000) + if i == 0 { 300_000 } else { 0 };
    let d = pixels(r, n);
    lzw_one(&d)
}
fn exact_blocks(r: &mut Rng, _: usize) -> R {
    // search for inputs whose compressed size is at a multiple of the block size, and one to either side
    let mut n = r.range(150, 260);
    for _ in 0..60 {
        let d: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
        lzw_one(&d)?;
        n += 1;
    }
    Ok(())
}
/// another reader's files: the blocks may have any size up to 255 and empty blocks in between
fn other_blocks(r: &mut Rng, _: usize) -> R {
    let n = r.below(3000);
    let d = pixels(r, n);
    let (raw, _) = unblock(&to_lzw_blocks(&d))?;
    let mut c = vec![];
    let mut i = 0;
    while i < raw.len() {
        let k = r.range(0, 255).min(raw.len() - i);
        c.push(k as u8);
        c.extend_from_slice(&raw[i..i + k]);
        i += k;
    }
    bytes_eq("re-blocked", &from_lzw_blocks(&c), &d)
}
fn draw_bits(r: &mut Rng, special: bool) -> (u32, u32, Vec<u8>) {
    if special {
        let mut p = altv_pixels();
        for _ in 0..r.below(40) {
            p.extend_from_slice(&(r.u64() as u32).to_le_bytes());
        }
        return (1, p.len() as u32 / 4, p);
    }
    let (w, h) = (r.range(1, 40) as u32, r.range(1, 40) as u32);
    let mut p = pixels(r, (w * h * 4) as usize);
    if r.bool() {
        p.iter_mut().skip(3).step_by(4).for_each(|a| *a = 255);
    }
    (w, h, p)
}
fn image(r: &mut Rng, bits: Vec<u8>, w: u32, h: u32) -> ImageData {
    ImageData {
        name: format!("im{}", r.below(1000)),
        path: "c:\\a.bmp".into(),
        width: w,
        height: h,
        alpha_test_value: if r.bool() { -1.0 } else { 128.0 },
        is_opaque: if r.bool() { Some(r.bool()) } else { None },
        is_signed: if r.bool() { Some(r.bool()) } else { None },
        bits: Some(ImageDataBits { lzw_compressed_data: bits }),
        ..Default::default()
    }
}
/// a bitmap between other records: what follows it is found, whatever bytes the bitmap has
fn in_record(r: &mut Rng, i: usize) -> R {
    let (w, h, p) = draw_bits(r, i % 4 == 0);
    let c = to_lzw_blocks(&p);
    if i % 4 == 0 {
        check(c.windows(4).any(|x| x == b"ALTV"), || "harness: no ALTV in the compressed bytes".into())?;
    }
    let im = image(r, c.clone(), w, h);
    let mut wr = BiffWriter::new();
    im.biff_write(&mut wr);
    let d = wr.get_data().to_vec();
    let at = d.windows(c.len() + 16).position(|x| x[..8] == *b"\x04\0\0\0BITS" && x[8..8 + c.len()] == c[..] && x[8 + c.len()..] == *b"\x08\0\0\0ALTV");
    check(at.is_some(), || "the bitmap is not followed by the next record".into())?;
    let mut rd = BiffReader::new(&d);
    let back = ImageData::biff_read(&mut rd);
    bytes_eq("compressed bytes read", &back.bits.as_ref().map(|b| b.lzw_compressed_data.clone()).unwrap_or_default(), &c)?;
    same_dbg("image read", &back, &im)?;
    bytes_eq("pixels read", &from_lzw_blocks(&back.bits.unwrap().lzw_compressed_data), &p)
}
/// extracted as a BMP file: every channel in its place; assembled again: the same pixels
fn as_file(r: &mut Rng, i: usize) -> R {
    let (w, h, p) = draw_bits(r, i % 8 == 0);
    let im = image(r, to_lzw_blocks(&p), w, h);
    let mut vpx = VPX::default();
    vpx.add_or_replace_image(im.clone());
    let fs = MemoryFileSystem::new();
    write_fs(&vpx, &Path::new("/x"), &ExpandOptions::new(), &fs).map_err(|e| format!("{e:?}"))?;
    let f = fs.read_file(Path::new(&format!("/x/images/{}.bmp", im.name))).map_err(|e| e.to_string())?;
    // BMP pixel array: rows from the bottom, padded to 4 bytes, blue first
    let rd32 = |o: usize| u32::from_le_bytes(f[o..o + 4].try_into().unwrap());
    check(&f[..2] == b"BM", || "not a BMP file".into())?;
    let (off, fw, fh, bpp) = (rd32(10) as usize, rd32(18), rd32(22) as i32, u16::from_le_bytes([f[28], f[29]]) as usize);
    same("BMP size", &(fw, fh.unsigned_abs()), &(w, h))?;
    let opaque = p.chunks(4).all(|x| x[3] == 255);
    let row = (w as usize * bpp / 8).div_ceil(4) * 4;
    if bpp == 24 || (bpp == 32 && rd32(30) == 0) {
        check(bpp == 32 || opaque, || "transparency lost".into())?;
        for y in 0..h as usize {
            let fy = if fh > 0 { h as usize - 1 - y } else { y };
            for x in 0..w as usize {
                let q = &f[off + fy * row + x * bpp / 8..][..3];
                let s = &p[(y * w as usize + x) * 4..][..3];
                same(&format!("BMP pixel {x},{y} (blue, green, red)"), &q.to_vec(), &s.to_vec())?;
            }
        }
    } else {
        let dec = ::image::load_from_memory(&f).map_err(|e| e.to_string())?.to_rgba8();
        for (k, px) in dec.pixels().enumerate() {
            let s = &p[k * 4..][..4];
            same(&format!("BMP pixel {k} (red, green, blue, alpha)"), &px.0, &[s[2], s[1], s[0], s[3]])?;
        }
    }
    let back = read_fs(&Path::new("/x"), &fs).map_err(|e| e.to_string())?;
    let b = back.images[0].bits.as_ref().ok_or("no bitmap read")?;
    bytes_eq("pixels assembled", &from_lzw_blocks(&b.lzw_compressed_data), &p)?;
    same_dbg("image assembled", &ImageData { bits: None, ..back.images[0].clone() }, &ImageData { bits: None, ..im })
}
fn main() {
    main_with(&[
        Check { name: "every_length", n: 256, f: every_length },
        Check { name: "large", n: 40, f: large },
        Check { name: "exact_blocks", n: 30, f: exact_blocks },
        Check { name: "other_blocks", n: 200, f: other_blocks },
        Check { name: "in_record", n: 200, f: in_record },
        Check { name: "as_file", n: 120, f: as_file },
    ]);
}
