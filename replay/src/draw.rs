//! Draws field values together with the bytes a record holds for them, and encodes given values.
use crate::oracle::*;
use crate::{R, Rng};
use std::cell::Cell;
use std::collections::HashSet;
use vpin::vpx::biff::BiffReader;
use vpin::vpx::color::Color;
use vpin::vpx::gameitem::font::{Font, FontStyle};
use vpin::vpx::gameitem::{vertex2d::Vertex2D, vertex3d::Vertex3D};

/// a record (or group of records that belong together) as written: its first tag, all its bytes
pub type Chunk = (String, Vec<u8>);
thread_local! {
    /// draw only what the current writer can write (no strings cut at NUL, no trailing bytes)
    pub static PLAIN: Cell<bool> = const { Cell::new(false) };
}
fn plain() -> bool {
    PLAIN.with(|p| p.get())
}
pub fn concat(c: Vec<Chunk>) -> Vec<u8> {
    c.into_iter().flat_map(|x| x.1).collect()
}
/// bytes of a record that this version does not know the meaning of
pub fn trail(b: &mut Vec<u8>, r: &mut Rng) {
    if !plain() && r.chance(4) {
        let n = r.range(1, 9);
        for _ in 0..n {
            b.push(r.u8());
        }
    }
}
pub fn boolean(r: &mut Rng) -> (bool, Vec<u8>) {
    let v = r.bool();
    (v, le32(if v && !plain() && r.chance(3) { r.u32().max(1) } else { v as u32 }))
}
pub fn string(r: &mut Rng) -> (String, Vec<u8>) {
    let n = [0, 3, 20, 200][r.below(4)];
    let v = r.latin1(n);
    if !plain() && r.chance(4) {
        let mut b = latin1(&v);
        b.push(0);
        b.extend(r.bytes(5));
        return (v, [le32(b.len() as u32), b].concat());
    }
    let b = str8(&v);
    (v, b)
}
pub fn wide_string(r: &mut Rng) -> (String, Vec<u8>) {
    let n = [0, 3, 20, 200][r.below(4)];
    let v = r.unicode(n);
    let b = wide(&v);
    (v, b)
}
pub fn color_bytes(c: &Color) -> Vec<u8> {
    // the unused byte is private: taken from the debug form
    vec![c.r, c.g, c.b, debug_num(&format!("{c:?}"), "unused") as u8]
}
pub fn color(r: &mut Rng) -> (Color, Vec<u8>) {
    let b = vec![r.u8(), r.u8(), r.u8(), if r.bool() { 0 } else { r.u8() }];
    let c = Color::biff_read(&mut BiffReader::with_remaining(&b, 4));
    assert_eq!((c.r, c.g, c.b), (b[0], b[1], b[2]), "channels of a colour read from {b:?}");
    (c, b)
}
pub fn v2_bytes(v: &Vertex2D) -> Vec<u8> {
    [f(v.x), f(v.y)].concat()
}
pub fn v3_bytes(v: &Vertex3D, pad: bool) -> Vec<u8> {
    [f(v.x), f(v.y), f(v.z), if pad { f(0.0) } else { vec![] }].concat()
}
pub fn v3_bytes_pad(v: &Vertex3D, r: &mut Rng) -> Vec<u8> {
    [f(v.x), f(v.y), f(v.z), le32(if plain() { 0 } else { r.u32() })].concat()
}
/// a number stored in eight bits, as n / 255
pub fn q8(r: &mut Rng) -> (f32, Vec<u8>) {
    let n = r.u8() as u32;
    (n as f32 / 255.0, le32(n))
}
pub fn q8_bytes(v: f32) -> Vec<u8> {
    for n in 0..=255u32 {
        if n as f32 / 255.0 == v {
            return le32(n);
        }
    }
    // not representable: the nearest below, as the game does
    le32((v * 255.0) as u32)
}
pub const STYLES: [FontStyle; 5] = [FontStyle::Normal, FontStyle::Bold, FontStyle::Italic, FontStyle::Underline, FontStyle::Strikethrough];
pub fn styles(flags: u8) -> HashSet<FontStyle> {
    STYLES.iter().enumerate().filter(|(i, _)| flags >> i & 1 == 1).map(|(_, s)| s.clone()).collect()
}
pub fn font(r: &mut Rng) -> (Font, Vec<u8>) {
    let (charset, flags, weight, size) = (r.u16(), r.below(32) as u8, r.u16(), r.u32());
    let name = if r.chance(8) { "x".repeat(255) } else { r.latin1(20) };
    let bytes = font_raw(charset, flags, weight, size, &name);
    (Font::new(charset, styles(flags), weight, size, name), bytes)
}
pub fn font_raw(charset: u16, flags: u8, weight: u16, size: u32, name: &str) -> Vec<u8> {
    let n = latin1(name);
    [vec![1], le16(charset), vec![flags], le16(weight), le32(size), vec![n.len() as u8], n].concat()
}
pub fn font_bytes(x: &Font) -> Vec<u8> {
    // private fields: taken from the debug form
    let s = format!("{x:?}");
    let num = |k: &str| debug_num(&s, k);
    let a = s.find("style: {").unwrap();
    let z = a + s[a..].find('}').unwrap();
    let flags = STYLES.iter().enumerate().filter(|(_, t)| s[a..z].contains(&format!("{t:?}"))).map(|(i, _)| 1u8 << i).sum();
    let n = s.find("name: ").unwrap();
    font_raw(num("charset") as u16, flags, num("weight") as u16, num("size"), &unquote(&s[n + 6..s.len() - 2]))
}
fn debug_num(s: &str, k: &str) -> u32 {
    let i = s.find(&format!("{k}: ")).unwrap() + k.len() + 2;
    s[i..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()
}
/// undoes the debug form of a string
pub fn unquote(q: &str) -> String {
    let mut o = String::new();
    let mut c = q[1..q.len() - 1].chars();
    while let Some(x) = c.next() {
        if x != '\\' {
            o.push(x);
            continue;
        }
        match c.next().unwrap() {
            'n' => o.push('\n'),
            'r' => o.push('\r'),
            't' => o.push('\t'),
            '0' => o.push('\0'),
            'u' => {
                c.next();
                let h: String = c.by_ref().take_while(|c| *c != '}').collect();
                o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
            }
            y => o.push(y),
        }
    }
    o
}
pub fn drag_point(r: &mut Rng) -> (vpin::vpx::gameitem::dragpoint::DragPoint, Vec<u8>) {
    let mut x = crate::gen_items::start_DragPoint();
    let b = stream(crate::gen_items::DRAGPOINT_TAGS, &mut x, r, crate::gen_items::set_DragPoint);
    (x, b)
}
/// tags that no element uses
const UNKNOWN: [&str; 8] = ["ZZZZ", "QQ", "X", "ENDC", "NEWT", "Q0Q1", "!!?!", "VERX"];
/// a stream of records in any order, with gaps, repetitions and unknown records, ended by ENDB
pub fn stream<T>(tags: &[&str], x: &mut T, r: &mut Rng, set: fn(&str, &mut T, &mut Rng) -> Vec<u8>) -> Vec<u8> {
    let mut order: Vec<&str> = vec![];
    let keep = r.below(5);
    for t in tags {
        if match keep { 0 => r.chance(6), 1 => true, 2 => r.bool(), 3 => !r.chance(6), _ => false } {
            order.push(t);
        }
    }
    for _ in 0..r.below(4) {
        order.push(tags[r.below(tags.len())]);
    }
    for _ in 0..r.below(4) {
        order.push(UNKNOWN[r.below(UNKNOWN.len())]);
    }
    if keep != 1 || r.bool() {
        r.shuffle(&mut order);
    }
    let mut b = vec![];
    for t in order {
        if UNKNOWN.contains(&t) {
            let big = r.chance(8);
            let n = [0, 1, 4, 17, 300, 70_000][r.below(if big { 6 } else { 5 })];
            let p: Vec<u8> = (0..n).map(|_| r.u8()).collect();
            b.extend(rec(t, &p));
        } else {
            b.extend(set(t, x, r));
        }
    }
    b.extend(endb());
    b
}
/// `got` is the given records, each once, those with the same tag in the given order, and then the end marker
pub fn chunks_eq(what: &str, got: &[u8], mut want: Vec<Chunk>) -> R {
    let mut p = 0;
    while !want.is_empty() {
        let Some(i) = want.iter().position(|c| got[p..].starts_with(&c.1)) else {
            let tag: String = if got.len() >= p + 8 { got[p + 4..p + 8].iter().map(|c| *c as char).collect() } else { "?".into() };
            let w = want.iter().find(|c| c.0.starts_with(tag.trim_end_matches('\0'))).unwrap_or(&want[0]);
            return Err(format!("{what}: at byte {p} found {} (tag {tag:?}), which is no record still due; due e.g. {} {}", crate::hex(&got[p..got.len().min(p + 60)]), w.0, crate::hex(&w.1)));
        };
        let first = want.iter().position(|c| c.0 == want[i].0).unwrap();
        if first != i && want[first].1 != want[i].1 {
            return Err(format!("{what}: records {} are out of order", want[i].0));
        }
        p += want[i].1.len();
        want.remove(i);
    }
    if got[p..] != endb()[..] {
        return Err(format!("{what}: after the last record comes {} instead of the end marker", crate::hex(&got[p..])));
    }
    Ok(())
}
