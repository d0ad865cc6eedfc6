//! WAV headers and their bytes, written from the RIFF format.
use crate::Rng;
use crate::oracle::*;

#[derive(Debug, Clone, PartialEq)]
pub struct Header {
    pub size: u32,
    pub fmt_size: u32,
    pub format_tag: u16,
    pub channels: u16,
    pub samples_per_sec: u32,
    pub avg_bytes_per_sec: u32,
    pub block_align: u16,
    pub bits_per_sample: u16,
    pub extension_size: Option<u16>,
    pub extension_fields: Vec<u8>,
    pub pre_fmt_fields: Vec<u8>,
    pub extra_fields: Vec<u8>,
    pub data_size: u32,
}
fn chunks(r: &mut Rng, max: usize) -> Vec<u8> {
    let mut o = vec![];
    for _ in 0..r.below(max + 1) {
        let id: [u8; 4] = loop {
            let id = match r.below(6) {
                0 => *b"JUNK",
                1 => *b"LIST",
                2 => *b"fact",
                3 => *b"dat ",
                4 => *b"FMT ",
                _ => std::array::from_fn(|_| 32 + r.below(95) as u8),
            };
            if id != *b"fmt " && id != *b"data" {
                break id;
            }
        };
        let mut p = r.bytes(11);
        if r.chance(5) {
            p.extend(b"data\x04\0\0\0fmt ");
        }
        o.extend(id);
        o.extend(le32(p.len() as u32));
        o.extend(&p);
        if p.len() % 2 == 1 {
            o.push(if r.bool() { 0 } else { r.u8() });
        }
    }
    o
}
fn printable(b: &[u8]) -> bool {
    b.iter().all(|b| (32..127).contains(b))
}
/// any header the format can carry
pub fn header(r: &mut Rng) -> Header {
    let fmt_size = *r.pick(&[16, 16, 18, 18, 19, 20, 40, 41, 18 + 22]);
    let ext = if fmt_size >= 18 { Some(r.u16()) } else { None };
    let mut h = Header {
        size: r.u32(),
        fmt_size,
        format_tag: r.u16(),
        channels: r.u16(),
        samples_per_sec: r.u32(),
        avg_bytes_per_sec: r.u32(),
        block_align: r.u16(),
        bits_per_sample: r.u16(),
        extension_size: ext,
        extension_fields: (0..fmt_size.saturating_sub(18)).map(|_| r.u8()).collect(),
        pre_fmt_fields: chunks(r, 2),
        extra_fields: chunks(r, 2),
        data_size: r.u32(),
    };
    // files of vpin up to 0.26: a fmt chunk said to be 16 bytes with an extension size behind it
    if fmt_size == 16 && r.chance(3) {
        let e = r.u16();
        if !printable(&e.to_le_bytes()) {
            h.extension_size = Some(e);
        }
    }
    h
}
pub fn header_bytes(h: &Header) -> Vec<u8> {
    let mut o = [
        b"RIFF".to_vec(),
        le32(h.size),
        b"WAVE".to_vec(),
        h.pre_fmt_fields.clone(),
        b"fmt ".to_vec(),
        le32(h.fmt_size),
        le16(h.format_tag),
        le16(h.channels),
        le32(h.samples_per_sec),
        le32(h.avg_bytes_per_sec),
        le16(h.block_align),
        le16(h.bits_per_sample),
    ]
    .concat();
    if let Some(e) = h.extension_size {
        o.extend(le16(e));
        o.extend(&h.extension_fields);
    }
    if h.fmt_size % 2 == 1 {
        o.push(0);
    }
    o.extend(&h.extra_fields);
    o.extend(b"data");
    o.extend(le32(h.data_size));
    o
}
