//! The file format, written out independently of the crate.

pub fn le32(v: u32) -> Vec<u8> {
    vec![v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8]
}
pub fn le16(v: u16) -> Vec<u8> {
    vec![v as u8, (v >> 8) as u8]
}
pub fn le64(v: u64) -> Vec<u8> {
    (0..8).map(|i| (v >> (8 * i)) as u8).collect()
}
pub fn tag4(t: &str) -> Vec<u8> {
    let mut b = t.as_bytes().to_vec();
    assert!(b.len() <= 4);
    b.resize(4, 0);
    b
}
/// length-framed record: u32 (4 + payload), tag, payload
pub fn rec(t: &str, p: &[u8]) -> Vec<u8> {
    [le32(4 + p.len() as u32), tag4(t), p.to_vec()].concat()
}
/// record whose size field covers only the tag
pub fn rec4(t: &str, p: &[u8]) -> Vec<u8> {
    [le32(4), tag4(t), p.to_vec()].concat()
}
pub fn endb() -> Vec<u8> {
    rec("ENDB", &[])
}
pub fn f(v: f32) -> Vec<u8> {
    le32(v.to_bits())
}
pub fn b32(v: bool) -> Vec<u8> {
    le32(v as u32)
}
/// latin-1 bytes of a string whose characters are all below 256
pub fn latin1(s: &str) -> Vec<u8> {
    s.chars().map(|c| u32::from(c) as u8).collect()
}
pub fn str8(s: &str) -> Vec<u8> {
    let b = latin1(s);
    [le32(b.len() as u32), b].concat()
}
pub fn utf16(s: &str) -> Vec<u8> {
    let mut o = vec![];
    for c in s.chars() {
        let c = c as u32;
        if c < 0x10000 {
            o.extend(le16(c as u16));
        } else {
            let d = c - 0x10000;
            o.extend(le16(0xD800 + (d >> 10) as u16));
            o.extend(le16(0xDC00 + (d & 0x3FF) as u16));
        }
    }
    o
}
pub fn wide(s: &str) -> Vec<u8> {
    let b = utf16(s);
    [le32(b.len() as u32), b].concat()
}
/// splits a stream of length-framed records, ENDB included
pub fn split(d: &[u8]) -> Result<Vec<(String, Vec<u8>)>, String> {
    let mut v = vec![];
    let mut p = 0;
    while p < d.len() {
        if p + 8 > d.len() {
            return Err(format!("truncated record header at {p}"));
        }
        let n = u32::from_le_bytes([d[p], d[p + 1], d[p + 2], d[p + 3]]) as usize;
        if n < 4 || p + 4 + n > d.len() {
            return Err(format!("bad record length {n} at {p}"));
        }
        let t: String = d[p + 4..p + 8].iter().take_while(|b| **b != 0).map(|b| *b as char).collect();
        v.push((t, d[p + 8..p + 4 + n].to_vec()));
        p += 4 + n;
    }
    Ok(v)
}

/// sub-blocks: (size byte, bytes)*; Err when the stream does not end at a block boundary
pub fn unblock(d: &[u8]) -> Result<(Vec<u8>, Vec<usize>), String> {
    let (mut out, mut sizes, mut i) = (vec![], vec![], 0);
    while i < d.len() {
        let n = d[i] as usize;
        if i + 1 + n > d.len() {
            return Err(format!("block of {n} bytes at {i} runs past the end ({} bytes)", d.len()));
        }
        out.extend_from_slice(&d[i + 1..i + 1 + n]);
        sizes.push(n);
        i += 1 + n;
    }
    Ok((out, sizes))
}
/// decodes GIF-style LZW (8-bit symbols, clear 256, end 257, widths 9..=12, least significant bit first);
/// returns the bytes and how many input bytes were used up to and including the end code
pub fn unlzw(d: &[u8]) -> Result<(Vec<u8>, usize), String> {
    let mut out: Vec<u8> = vec![];
    let mut table: Vec<Vec<u8>> = vec![];
    let (mut width, mut bit) = (9usize, 0usize);
    let mut prev: Option<Vec<u8>> = None;
    let reset = |t: &mut Vec<Vec<u8>>| {
        t.clear();
        t.extend((0..=255u8).map(|b| vec![b]));
        t.push(vec![]);
        t.push(vec![]);
    };
    reset(&mut table);
    loop {
        if bit + width > d.len() * 8 {
            return Err(format!("no end code in {} bytes", d.len()));
        }
        let mut code = 0usize;
        for k in 0..width {
            code |= ((d[(bit + k) / 8] >> ((bit + k) % 8)) as usize & 1) << k;
        }
        bit += width;
        match code {
            256 => {
                reset(&mut table);
                width = 9;
                prev = None;
                continue;
            }
            257 => return Ok((out, bit.div_ceil(8))),
            _ => {}
        }
        let entry = match (&prev, table.get(code)) {
            (_, Some(e)) => e.clone(),
            (Some(p), None) if code == table.len() => [p.as_slice(), &p[..1]].concat(),
            _ => return Err(format!("code {code} with {} entries", table.len())),
        };
        out.extend_from_slice(&entry);
        if let Some(p) = prev
            && table.len() < 4096
        {
            table.push([p.as_slice(), &entry[..1]].concat());
        }
        if table.len() == 1 << width && width < 12 {
            width += 1;
        }
        prev = Some(entry);
    }
}
/// pixel bytes whose compressed form contains the text "ALTV" (the tag of the record that follows a bitmap)
pub fn altv_pixels() -> Vec<u8> {
    // literals at codes 1..=46 (no pair repeated), then codes 0x82, 0x4C, 298 (= literals 41 and 42) and 0x15: with
    // nine-bit codes the bytes at the boundary read 41 4C 54 56
    let mut p: Vec<u8> = (0..46u8).map(|i| 100 + i).collect();
    p.extend([0x82, 0x4C, p[40], p[41], 0x15]);
    while p.len() % 4 != 0 {
        p.push(p.len() as u8 + 180);
    }
    p
}
