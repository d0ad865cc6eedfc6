//! Text: script bytes, latin-1 names and UTF-16 names survive being read and written.
use replay::oracle::*;
use replay::*;
use vpin::vpx::biff::{BiffReader, BiffWriter};
use vpin::vpx::model::{StringEncoding, StringWithEncoding};

fn script_bytes(b: &[u8]) -> R {
    let want = match std::str::from_utf8(b) {
        Ok(s) => StringWithEncoding { encoding: StringEncoding::Utf8, string: s.to_string() },
        Err(_) => StringWithEncoding { encoding: StringEncoding::Latin1, string: b.iter().map(|c| *c as char).collect() },
    };
    let a: StringWithEncoding = b.into();
    let c: StringWithEncoding = b.to_vec().into();
    same(&format!("text of slice {}", hex(b)), &a, &want)?;
    same(&format!("text of vec {}", hex(b)), &c, &want)?;
    let back: Vec<u8> = a.clone().into();
    bytes_eq("bytes back", &back, b)?;
    let mut w = BiffWriter::new();
    w.new_tag("CODE");
    w.write_string_with_encoding(&a);
    w.end_tag_no_size();
    bytes_eq("written script", w.get_data(), &rec4("CODE", &[le32(b.len() as u32), b.to_vec()].concat()))?;
    if !b.contains(&0) {
        let d = w.get_data()[12..].to_vec();
        let mut rd = BiffReader::with_remaining(&d, d.len());
        same("script read", &rd.get_str_with_encoding_no_remaining_update(b.len()), &a)?;
    }
    Ok(())
}
fn two_bytes(_: &mut Rng, i: usize) -> R {
    // exhaustive: every string of at most two bytes
    if i == 0 { script_bytes(&[])?; }
    script_bytes(&[i as u8])?;
    for j in 0..=255u8 {
        script_bytes(&[i as u8, j])?;
    }
    Ok(())
}
fn script(r: &mut Rng, _: usize) -> R {
    let b = match r.below(4) {
        0 => r.unicode(80).into_bytes(),
        1 => r.bytes(80),
        2 => latin1(&r.latin1(80)),
        _ => {
            // valid UTF-8 broken at one place
            let mut b = r.unicode(40).into_bytes();
            if !b.is_empty() {
                let k = r.below(b.len());
                if r.bool() { b.truncate(k) } else { b[k] = r.u8() }
            }
            b
        }
    };
    script_bytes(&b)
}
fn constructors(r: &mut Rng, _: usize) -> R {
    let s = r.unicode(30);
    let want = StringWithEncoding { encoding: StringEncoding::Utf8, string: s.clone() };
    same("new", &StringWithEncoding::new(s.clone()), &want)?;
    same("from", &StringWithEncoding::from(&s), &want)?;
    same("empty", &StringWithEncoding::empty(), &StringWithEncoding { encoding: StringEncoding::Utf8, string: String::new() })?;
    let b: Vec<u8> = want.into();
    bytes_eq("utf8 bytes", &b, s.as_bytes())?;
    let l = r.latin1(30);
    let b: Vec<u8> = StringWithEncoding { encoding: StringEncoding::Latin1, string: l.clone() }.into();
    bytes_eq("latin1 bytes", &b, &latin1(&l))
}
fn wide_ok(s: &str) -> R {
    let mut w = BiffWriter::new();
    w.write_tagged_wide_string("NAME", s);
    bytes_eq(&format!("wide {s:?}"), w.get_data(), &rec("NAME", &wide(s)))?;
    let d = [w.get_data(), &endb()].concat();
    let mut rd = BiffReader::new(&d);
    rd.next(true);
    same("wide read", &rd.get_wide_string(), &s.to_string())?;
    same("wide read leaves", &rd.remaining_in_record(), &0)
}
fn every_char(_: &mut Rng, i: usize) -> R {
    // exhaustive: every scalar value, 0x800 per case
    let mut all = String::new();
    for c in (i * 0x800..(i + 1) * 0x800).filter_map(|c| char::from_u32(c as u32)) {
        all.push(c);
        if i < 4 || (c as u32) % 64 == 0 {
            wide_ok(&c.to_string())?;
        }
    }
    wide_ok(&all)
}
fn wide_random(r: &mut Rng, _: usize) -> R {
    wide_ok(&r.unicode(60))
}
fn latin1_names(r: &mut Rng, i: usize) -> R {
    let s = if i < 255 { char::from_u32(i as u32 + 1).unwrap().to_string() } else { r.latin1(120) };
    let mut w = BiffWriter::new();
    w.write_tagged_string("NAME", &s);
    w.new_tag("SHRT");
    w.write_short_string(&s);
    w.write_string_empty_zero(&s);
    w.close(true);
    let z = if s.is_empty() { vec![1, 0, 0, 0, 0] } else { str8(&s) };
    let l = latin1(&s);
    bytes_eq(&format!("latin1 {s:?}"), w.get_data(), &[rec("NAME", &str8(&s)), rec("SHRT", &[vec![l.len() as u8], l.clone(), z].concat()), endb()].concat())?;
    let d = w.get_data().to_vec();
    let mut rd = BiffReader::new(&d);
    rd.next(true);
    same("latin1 read", &rd.get_string(), &s)?;
    rd.next(true);
    let n = rd.get_u8() as usize;
    same("short read", &rd.get_str(n), &s)?;
    same("empty-zero read", &rd.get_string(), &s)
}
fn main() {
    main_with(&[
        Check { name: "two_bytes", n: 256, f: two_bytes },
        Check { name: "script", n: 6000, f: script },
        Check { name: "constructors", n: 500, f: constructors },
        Check { name: "every_char", n: 0x110000 / 0x800, f: every_char },
        Check { name: "wide_random", n: 2000, f: wide_random },
        Check { name: "latin1", n: 1500, f: latin1_names },
    ]);
}
