//! Colours, versions and quantised numbers.
use replay::oracle::*;
use replay::*;
use std::io::{Cursor, Read};
use vpin::vpx::VPX;
use vpin::vpx::biff::{BiffReader, BiffWriter};
use vpin::vpx::color::Color;
use vpin::vpx::math::*;
use vpin::vpx::version::Version;

fn color_one(v: u32) -> R {
    let [r, g, b, u] = v.to_le_bytes();
    let c = Color::from_win_color(v);
    same(&format!("channels of win colour {v:#010x}"), &(c.r, c.g, c.b), &(r, g, b))?;
    same("win colour back", &c.to_win_color(), &v)?;
    same("rgb number", &c.to_rgb(), &u32::from_be_bytes([0, r, g, b]))?;
    let rgb = v & 0xff_ffff;
    let d = Color::from_rgb(rgb);
    let [_, r2, g2, b2] = rgb.to_be_bytes();
    same(&format!("channels of rgb {rgb:#08x}"), &(d.r, d.g, d.b), &(r2, g2, b2))?;
    same("rgb back", &d.to_rgb(), &rgb)?;
    same("rgb has no unused byte", &d.to_win_color(), &u32::from_le_bytes([r2, g2, b2, 0]))?;
    same("rgb()", &Color::rgb(r2, g2, b2), &d)?;
    let mut w = BiffWriter::new();
    w.new_tag("COLR");
    c.biff_write(&mut w);
    w.end_tag();
    bytes_eq("stored colour", w.get_data(), &rec("COLR", &[r, g, b, u]))?;
    let data = w.get_data().to_vec();
    let mut rd = BiffReader::new(&data);
    rd.next(true);
    same("stored colour read", &Color::biff_read(&mut rd), &c)
}
fn hex2(v: u8) -> String {
    let d = b"0123456789abcdef";
    format!("{}{}", d[v as usize / 16] as char, d[v as usize % 16] as char)
}
fn text_one(v: u32) -> R {
    let [r, g, b, u] = v.to_le_bytes();
    let c = Color::from_win_color(v);
    let rgb = format!("#{}{}{}", hex2(r), hex2(g), hex2(b));
    let text = if u == 0 { rgb.clone() } else { format!("{}{rgb}", hex2(u)) };
    let js = serde_json::to_string(&c).map_err(|e| e.to_string())?;
    same(&format!("text of {v:#010x}"), &js, &format!("\"{text}\""))?;
    let back: Color = serde_json::from_str(&js).map_err(|e| format!("{js}: {e}"))?;
    same(&format!("colour of text {js}"), &back.to_win_color(), &v)?;
    let up: Color = serde_json::from_str(&js.to_uppercase()).map_err(|e| format!("{js}: {e}"))?;
    same("colour of upper-case text", &up.to_win_color(), &v)?;
    same("display", &c.to_string(), &rgb)
}
/// every value of every channel, with the other channels at 0, at 255 and at random values
fn channels(r: &mut Rng, i: usize) -> R {
    for k in 0..4 {
        let m = 0xffu32 << (8 * k);
        for o in [0u32, u32::MAX, r.u64() as u32, r.u64() as u32, r.u32()] {
            let v = (o & !m) | ((i as u32) << (8 * k));
            color_one(v)?;
            text_one(v)?;
        }
    }
    Ok(())
}
fn colors(r: &mut Rng, _: usize) -> R {
    for _ in 0..64 {
        let v = r.u64() as u32;
        color_one(v)?;
        text_one(v)?;
    }
    Ok(())
}
/// texts that are no colour are refused, never misread
fn bad_text(r: &mut Rng, _: usize) -> R {
    let good = if r.bool() { "#12ab9f" } else { "7f#12ab9f" };
    let mut t: Vec<char> = good.chars().collect();
    match r.below(4) {
        0 => {
            let k = r.below(t.len());
            t[k] = *r.pick(&['g', 'z', ' ', '-', '_', '/', ':', '`', '@', '{']);
        }
        1 => {
            t.remove(r.below(t.len()));
        }
        2 => {
            let k = r.below(t.len() + 1);
            t.insert(k, '0');
        }
        _ => {
            let p = t.iter().position(|c| *c == '#').unwrap();
            t[p] = '0';
        }
    }
    let s: String = t.into_iter().collect();
    match serde_json::from_value::<Color>(serde_json::Value::String(s.clone())) {
        Ok(c) => Err(format!("{s:?} was read as colour {c:?}")),
        Err(_) => Ok(()),
    }
}
fn version_one(v: u32) -> R {
    let x = Version::new(v);
    same("number", &x.u32(), &v)?;
    same("number (into)", &u32::from(x.clone()), &v)?;
    same("text", &x.to_u32_string(), &v.to_string())?;
    same("parsed", &Version::parse(&v.to_string()).map_err(|e| e.to_string()), &Ok(x.clone()))?;
    same("text of parsed", &Version::parse(&v.to_string()).unwrap().to_u32_string(), &v.to_string())?;
    if v < 100_000 {
        let (a, b) = (v / 100, v % 100);
        let want = if b == 0 { format!("{a}") } else if b % 10 == 0 { format!("{a}.{}", b / 10) } else { format!("{a}.{b:02}") };
        same("display", &x.to_string(), &want)?;
    }
    Ok(())
}
fn versions(r: &mut Rng, i: usize) -> R {
    for k in 0..100 {
        version_one((i * 100 + k) as u32)?;
    }
    for _ in 0..40 {
        let (a, b) = (r.u32(), r.u32());
        version_one(a)?;
        let b = if r.chance(5) { a } else if r.bool() { a.wrapping_add(1) } else { b };
        let (x, y) = (Version::new(a), Version::new(b));
        same("order", &x.partial_cmp(&y), &Some(a.cmp(&b)))?;
        same("less", &(x < y, x <= y, x > y, x >= y, x == y), &(a < b, a <= b, a > b, a >= b, a == b))?;
    }
    for s in ["", " 1", "1 ", "-1", "1.0", "4294967296", "1a", "10,8"] {
        if let Ok(v) = Version::parse(s) {
            return Err(format!("{s:?} was read as version {v:?}"));
        }
    }
    Ok(())
}
fn version_bytes(r: &mut Rng, i: usize) -> R {
    let v = match i {
        0 => 1060,
        1 => 1070,
        2 => 1072,
        3 => 1080,
        4 => 0,
        _ => r.u32(),
    };
    let vpx = VPX { version: Version::new(v), ..Default::default() };
    let d = vpin::vpx::to_bytes(&vpx).map_err(|e| e.to_string())?;
    let mut c = cfb::CompoundFile::open(Cursor::new(&d)).map_err(|e| e.to_string())?;
    let mut b = vec![];
    c.open_stream("/GameStg/Version").map_err(|e| e.to_string())?.read_to_end(&mut b).map_err(|e| e.to_string())?;
    bytes_eq("stored version", &b, &le32(v))?;
    let back = vpin::vpx::from_bytes(&d).map_err(|e| e.to_string())?;
    same("version read", &back.version, &Version::new(v))
}
fn q<const B: u8>() -> R {
    for i in 0..(1u32 << B) {
        let x = dequantize_unsigned::<B>(i);
        check((0.0..=1.0).contains(&x), || format!("dequantize_unsigned::<{B}>({i}) = {x}"))?;
        same(&format!("quantize_unsigned::<{B}>(dequantize({i}) = {x})"), &quantize_unsigned::<B>(x), &i)?;
        let y = dequantize_u8(B, i as u8);
        check((0.0..=1.0).contains(&y), || format!("dequantize_u8({B}, {i}) = {y}"))?;
        same(&format!("quantize_u8({B}, dequantize({i}) = {y})"), &quantize_u8(B, y), &(i as u8))?;
        let n = ((1u32 << B) - 1) as f64;
        same("nearest single to i/n", &(x, y), &((i as f64 / n) as f32, (i as f64 / n) as f32))?;
    }
    Ok(())
}
/// exhaustive: every stored value of every width up to 8 bits, and of the percent form
fn quantised(_: &mut Rng, _: usize) -> R {
    q::<1>()?;
    q::<2>()?;
    q::<3>()?;
    q::<4>()?;
    q::<5>()?;
    q::<6>()?;
    q::<7>()?;
    q::<8>()?;
    for i in 0..=255u8 {
        let x = dequantize_unsigned_8(i);
        same("8 bit", &x, &((i as f64 / 255.0) as f32))?;
        same("8 bit back", &quantize_unsigned_8(x), &i)?;
    }
    for i in 0..=100u32 {
        let x = dequantize_unsigned_percent(i);
        same("percent", &x, &((i as f64 / 100.0) as f32))?;
        same("percent back", &quantize_unsigned_percent(x), &i)?;
    }
    Ok(())
}
/// any non-negative number quantises into range, in order, and stays put after one trip
fn quantise_any(r: &mut Rng, _: usize) -> R {
    for _ in 0..200 {
        let x = match r.below(4) {
            0 => r.f32().abs(),
            1 => r.below(100_000) as f32 / 100_000.0,
            2 => f32::from_bits((r.below(257) as f32 / 256.0).to_bits().wrapping_add(r.below(5) as u32).saturating_sub(2)).abs(),
            _ => 1.0 + r.below(100) as f32,
        };
        let x = if x.is_nan() { 0.5 } else { x };
        let bits = r.range(1, 8) as u8;
        let i = quantize_u8(bits, x);
        let n = ((1u32 << bits) - 1) as u8;
        // interval i of 2^bits equal ones, the last one also taking everything above
        let np1 = (1u64 << bits) as f64;
        let want = ((x as f64 * np1).floor()).min(n as f64) as u8;
        same(&format!("quantize_u8({bits}, {x})"), &i, &want)?;
        same("settles", &quantize_u8(bits, dequantize_u8(bits, i)), &i)?;
        same("8 bit", &(quantize_unsigned::<8>(x), quantize_unsigned_8(x)), &(quantize_u8(8, x) as u32, quantize_u8(8, x)))?;
        let i = quantize_unsigned_percent(x);
        check(i <= 100, || format!("percent of {x} is {i}"))?;
        same("percent settles", &quantize_unsigned_percent(dequantize_unsigned_percent(i)), &i)?;
    }
    Ok(())
}
fn main() {
    main_with(&[
        Check { name: "channels", n: 256, f: channels },
        Check { name: "colors", n: 2000, f: colors },
        Check { name: "bad_text", n: 2000, f: bad_text },
        Check { name: "versions", n: 1000, f: versions },
        Check { name: "version_bytes", n: 40, f: version_bytes },
        Check { name: "quantised", n: 1, f: quantised },
        Check { name: "quantise_any", n: 500, f: quantise_any },
    ]);
}
