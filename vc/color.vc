@@module color src/vpx/color.rs
@@broadcast vpin_base, vpin_str, vpin_seq, vpin_rd
@@item struct Color
@@fn Color::biff_read
    requires old(reader).wf(), old(reader).cur().len() >= 4,
    ensures final(reader).took(old(reader), 4), ({ let p = old(reader).cur(); r == Color { r: p[0], g: p[1], b: p[2], unused: p[3] } }),
@@fn Color::biff_write
    requires old(writer).wf(),
    ensures final(writer).appended(old(writer), pl_color(*self)), pl_color(*self).len() == 4,
@@post
    assert(writer.data@ =~= old(writer).data@ + seq![self.r, self.g, self.b, self.unused]);
    lemma_appended(old(writer), writer, seq![self.r, self.g, self.b, self.unused]);
@@fn Color::from_rgb
    ensures r.r == byte_at(arg, 2), r.g == byte_at(arg, 1), r.b == byte_at(arg, 0), r.unused == 0,
@@start
    proof { lemma_color_bytes(arg); }
@@fn Color::to_rgb
    ensures r == rgb_num(*self),
@@start
    proof { lemma_color_or(self.b, self.g, self.r, 0); }
@@fn Color::to_win_color
    ensures r == win_num(*self),
@@start
    proof { lemma_color_or(self.r, self.g, self.b, self.unused); }
@@fn Color::from_win_color
    ensures r.r == byte_at(arg, 0), r.g == byte_at(arg, 1), r.b == byte_at(arg, 2), r.unused == byte_at(arg, 3),
@@start
    proof { lemma_color_bytes(arg); }
@@fn Color::rgb
@@ret out
    ensures out == (Color { r: r, g: g, b: b, unused: 0 }),
@@extra
/// byte k of a 32-bit number, least significant first
pub open spec fn byte_at(v: u32, k: int) -> u8 { if k == 0 { (v % 0x100) as u8 } else if k == 1 { (v / 0x100 % 0x100) as u8 } else if k == 2 { (v / 0x10000 % 0x100) as u8 } else { (v / 0x1000000) as u8 } }
/// 0x00RRGGBB
pub open spec fn rgb_num(c: Color) -> int { c.r * 0x10000 + c.g * 0x100 + c.b }
/// 0xUUBBGGRR (Windows COLORREF)
pub open spec fn win_num(c: Color) -> int { c.unused * 0x1000000 + c.b * 0x10000 + c.g * 0x100 + c.r }
pub proof fn lemma_color_bytes(v: u32)
    ensures (v & 0xff) as u8 == byte_at(v, 0), ((v >> 8) & 0xff) as u8 == byte_at(v, 1), ((v >> 16) & 0xff) as u8 == byte_at(v, 2), ((v >> 24) & 0xff) as u8 == byte_at(v, 3),
        (v >> 24) as u8 == byte_at(v, 3),
{
    assert((v & 0xff) == v % 0x100 && ((v >> 8) & 0xff) == v / 0x100 % 0x100 && ((v >> 16) & 0xff) == v / 0x10000 % 0x100 && ((v >> 24) & 0xff) == v / 0x1000000 && (v >> 24) == v / 0x1000000) by (bit_vector);
}
pub proof fn lemma_color_or(a: u8, b: u8, c: u8, d: u8)
    ensures ({ let (x, y, z, u) = (a as u32, (b as u32) << 8, (c as u32) << 16, (d as u32) << 24);
        let n = d * 0x1000000 + c * 0x10000 + b * 0x100 + a;
        u | x | y | z == n && u | z | y | x == n && x | y | z | u == n && z | y | x | u == n && z | y | x == n - d * 0x1000000 && x | y | z == n - d * 0x1000000 && ((z | y) | x) == n - d * 0x1000000 }),
{
    let (x, y, z, u) = (a as u32, (b as u32) << 8, (c as u32) << 16, (d as u32) << 24);
    let (a1, b1, c1, d1) = (a as u32, b as u32, c as u32, d as u32);
    assert(a1 < 256 && b1 < 256 && c1 < 256 && d1 < 256 ==> (d1 << 24) | a1 | (b1 << 8) | (c1 << 16) == add(add(mul(d1, 0x1000000), mul(c1, 0x10000)), add(mul(b1, 0x100), a1))
        && (d1 << 24) | (c1 << 16) | (b1 << 8) | a1 == (d1 << 24) | a1 | (b1 << 8) | (c1 << 16)
        && a1 | (b1 << 8) | (c1 << 16) | (d1 << 24) == (d1 << 24) | a1 | (b1 << 8) | (c1 << 16)
        && (c1 << 16) | (b1 << 8) | a1 | (d1 << 24) == (d1 << 24) | a1 | (b1 << 8) | (c1 << 16)
        && (c1 << 16) | (b1 << 8) | a1 == add(mul(c1, 0x10000), add(mul(b1, 0x100), a1))
        && a1 | (b1 << 8) | (c1 << 16) == add(mul(c1, 0x10000), add(mul(b1, 0x100), a1))) by (bit_vector);
}
/// a colour read from its 32-bit form writes back the same 32 bits, and the other way round; same for 0xRRGGBB
pub fn color_win_roundtrip(v: u32) -> (r: u32) ensures r == v { let c = Color::from_win_color(v); c.to_win_color() }
pub fn color_win_roundtrip2(c: &Color) -> (r: Color) ensures r == *c { let v = c.to_win_color(); proof { lemma_win_bytes(*c); } Color::from_win_color(v) }
pub fn color_rgb_roundtrip(v: u32) -> (r: u32) requires v < 0x1000000 ensures r == v { let c = Color::from_rgb(v); c.to_rgb() }
pub fn color_rgb_roundtrip2(c: &Color) -> (r: Color) ensures r == (Color { unused: 0, ..*c }) { let v = c.to_rgb(); Color::from_rgb(v) }
pub proof fn lemma_win_bytes(c: Color)
    ensures ({ let v = win_num(c) as u32; v == win_num(c) && byte_at(v, 0) == c.r && byte_at(v, 1) == c.g && byte_at(v, 2) == c.b && byte_at(v, 3) == c.unused }),
{
    let v = win_num(c) as u32;
    let (a, b, g, u) = (c.r as u32, c.g as u32, c.b as u32, c.unused as u32);
    assert(a < 256 && b < 256 && g < 256 && u < 256 ==> ({ let w = add(add(mul(u, 0x1000000), mul(g, 0x10000)), add(mul(b, 0x100), a));
        w % 0x100 == a && w / 0x100 % 0x100 == b && w / 0x10000 % 0x100 == g && w / 0x1000000 == u })) by (bit_vector);
}
/// the stored form is the 32-bit form, least significant byte first
pub proof fn lemma_color_stored(c: Color) ensures pl_color(c) =~= b32(win_num(c) as u32)
{
    lemma_win_bytes(c); reveal(b32);
    let v = win_num(c) as u32;
    lemma_color_bytes(v);
    assert(v >> 0 == v) by (bit_vector);
}
/*opaque-in-client*/ pub open spec fn pl_color(c: Color) -> Seq<u8> { seq![c.r, c.g, c.b, c.unused] }
