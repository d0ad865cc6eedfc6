"""Generates the contracts of the record codecs (BIFF readers / writers of game items and the like) from
the committed schema vc/schema.json:  tag -> (field, representation).  The schema is the specification:
it is NOT derived from /repo at check time."""
import json, os, re
import vc
from vc import Contract, Module, HERE

SCHEMA = json.load(open(os.path.join(HERE, "schema.json")))
def schema_of(T):
    return SCHEMA["items"].get(T) or SCHEMA["data"][T]


SHARED = [("LOCK", "is_locked", "bool", False), ("LAYR", "editor_layer", "u32", True), ("LANR", "editor_layer_name", "str", True),
          ("GRUP", "part_group_name", "str", True), ("LVIS", "editor_layer_visibility", "bool", True)]
BCW = "lemma_empty_add, lemma_wdone, lemma_wdone_no_size, lemma_b32_len"
BC = "axiom_mk_string, axiom_mk_vec, axiom_f32_bits, lemma_b32, vpin_pl"


def code(tag):
    w = [1, 1 << 24, 1 << 48, 1 << 72]
    return sum(ord(c) * w[i] for i, c in enumerate(tag))


SIZES = {"f32": 4, "u32": 4, "i32": 4, "bool": 4, "color": 4, "v2": 8, "v3": 16, "v4": 16, "v3u": 12, "q8": 4, "i64": 8, "u64": 8, "f64": 8}


def read_cond(k, o=0):
    """precondition on payload p for reading representation k at offset o"""
    if k in SIZES:
        return f"p.len() >= {o + SIZES[k]}"
    if k == "str":
        return f"p.len() >= {o + 4} && p.len() >= {o + 4} + u32_at(p, {o})"
    if k == "wstr":
        return f"p.len() >= {o + 4} && p.len() >= {o + 4} + u32_at(p, {o}) && utf16_ok(p.subrange({o + 4}, {o + 4} + u32_at(p, {o})))"
    if k == "data":
        return "true"
    if k == "arr16":
        return "p.len() == 16"
    if k == "sdata":
        return "b.size_opt is Some && p.len() == b.size_opt->0"
    if k.startswith("enum:"):
        return f"p.len() >= {o + 4} && {k[5:]}_dom({enum_raw(k[5:], o)})"
    raise KeyError(k)


def enum_raw(e, o=0):
    return f"u32_at(p, {o})" if SCHEMA["enums"][e]["int"] == "u32" else f"(u32_at(p, {o}) as i32)"


def read_val(k, o=0):
    if k == "f32":
        return f"f32_of_bits(u32_at(p, {o}))"
    if k == "u32":
        return f"u32_at(p, {o})"
    if k == "i32":
        return f"(u32_at(p, {o}) as i32)"
    if k == "bool":
        return f"(u32_at(p, {o}) != 0)"
    if k == "str":
        return f"mk_string(latin1_dec(until0(p.subrange({o + 4}, {o + 4} + u32_at(p, {o})))))"
    if k == "wstr":
        return f"mk_string(utf16_dec(p.subrange({o + 4}, {o + 4} + u32_at(p, {o}))))"
    if k == "color":
        return f"Color {{ r: p[{o}], g: p[{o + 1}], b: p[{o + 2}], unused: p[{o + 3}] }}"
    if k == "v2":
        return f"Vertex2D {{ x: f32_of_bits(u32_at(p, {o})), y: f32_of_bits(u32_at(p, {o + 4})) }}"
    if k in ("v3", "v3u"):
        return f"Vertex3D {{ x: f32_of_bits(u32_at(p, {o})), y: f32_of_bits(u32_at(p, {o + 4})), z: f32_of_bits(u32_at(p, {o + 8})) }}"
    if k == "v4":
        return f"Vertex4D {{ x: f32_of_bits(u32_at(p, {o})), y: f32_of_bits(u32_at(p, {o + 4})), z: f32_of_bits(u32_at(p, {o + 8})), w: f32_of_bits(u32_at(p, {o + 12})) }}"
    if k == "q8":
        return f"dq8(u32_at(p, {o}))"
    if k == "arr16":
        return "mk_arr(p)"
    if k in ("data", "sdata"):
        return "mk_vec(p)"
    if k.startswith("enum:"):
        return f"{k[5:]}_of({enum_raw(k[5:], o)})"
    raise KeyError(k)


def valid(k, x):
    if k == "str":
        return f"str_valid({x}@)"
    if k == "wstr":
        return f"wstr_valid({x}@)"
    if k == "q8":
        return f"q8_valid({x})"
    if k in ("data", "sdata"):
        return f"{x}@.len() <= 0x7fff_ffff"
    if k.startswith("enum:"):
        return f"{k[5:]}_canon({x})"
    if k == "font":
        return f"font_valid({x})"
    return None


TYPES = {"f32": "f32", "u32": "u32", "i32": "i32", "bool": "bool", "str": "String", "wstr": "String", "color": "Color", "v2": "Vertex2D", "v3": "Vertex3D", "v4": "Vertex4D", "v3u": "Vertex3D", "q8": "f32", "data": "Vec<u8>", "sdata": "Vec<u8>", "arr16": "[u8; 16]"}


def ktype(k):
    return k[5:] if k.startswith("enum:") else TYPES[k]


def payload(k, x):
    """bytes of representation k for value x (spec expression)"""
    if k == "f32":
        return f"b32(f32_bits({x}))"
    if k == "u32":
        return f"b32({x})"
    if k in ("i32", "bool"):
        return f"pl_{k}({x})"
    if k == "str":
        return f"pl_str({x}@)"
    if k == "wstr":
        return f"pl_wide({x}@)"
    if k in ("color", "v2", "v3", "v3u", "v4"):
        return f"pl_{k}({x})"
    if k == "q8":
        return f"b32(q8({x}))"
    if k in ("data", "sdata", "arr16"):
        return f"{x}@"
    if k.startswith("enum:"):
        e = k[5:]
        return f"b32({e}_num({x}))" if SCHEMA["enums"][e]["int"] == "u32" else f"pl_i32({e}_num({x}))"
    raise KeyError(k)


def enum_items(names):
    """spec functions + contracts for u32 <-> enum conversions, grouped per file"""
    mods = {}
    for e in names:
        d = SCHEMA["enums"][e]
        m = mods.setdefault(d["file"], Module("enum_" + e, d["file"]))
        m.broadcast = ""
        m.items.append("enum " + e)
        m.item_attrs["enum " + e] = "#[derive(Clone, Copy)]"
        it = d["int"]
        vs = [v[0] for v in d["variants"]]
        unk = [v for v in d["variants"] if v[2]]
        dom = " || ".join(f"v == {n}" for n, _ in d["pairs"]) if not d["fallback"] else "true"
        chain = "".join(f"if v == {n} {{ {e}::{v} }} else " for n, v in d["pairs"])
        fb = d["fallback"]
        last = f"{{ {e}::{d['pairs'][-1][1]} }}" if not fb else ("{ %s::%s(v) }" % (e, fb.split("(")[0]) if "(" in fb else "{ %s::%s }" % (e, fb))
        num = " ".join([f"{e}::{v} => {n}{it}," for n, v in d["pairs"]] + [f"{e}::{u[0]}(x) => x," for u in unk])
        m.extra += f"""
pub open spec fn {e}_dom(v: {it}) -> bool {{ {dom} }}
pub open spec fn {e}_of(v: {it}) -> {e} {{ {chain}{last} }}
pub open spec fn {e}_num(e: {e}) -> {it} {{ match e {{ {num} }} }}
pub open spec fn {e}_canon(e: {e}) -> bool {{ {e}_of({e}_num(e)) == e }}
pub proof fn {e}_inverse(e: {e}, v: {it})
    ensures {"true" if unk else f"{e}_canon(e)"}, {e}_dom({e}_num(e)), {e}_dom(v) ==> ({f"{e}_num({e}_of(v)) == v" if not fb or '(' in fb else f"{e}_canon({e}_of(v))"}), {f"{e}_canon({e}_of(v))"},
{{ }}
impl VInto<{e}> for {it} {{
    open spec fn into_ok(self) -> bool {{ {e}_dom(self) }}
    open spec fn into_is(self, r: {e}) -> bool {{ r == {e}_of(self) }}
    fn v_into(self) -> (r: {e}) {{ {e}::from_{it}(self) }}
}}
"""
        if not unk:
            m.extra += f"pub broadcast proof fn {e}_allcanon(e: {e}) ensures #[trigger] {e}_of({e}_num(e)) == e, {e}_dom({e}_num(e)) {{ }}\n"
        else:
            m.extra += f"pub broadcast proof fn {e}_allcanon(e: {e}) requires {e}_canon(e) ensures #[trigger] {e}_of({e}_num(e)) == e, {e}_dom({e}_num(e)) {{ }}\n"
        ref = d["to_ref"]
        src = ("&" if ref else "") + e
        m.extra += f"""impl{"<'a>" if ref else ""} VInto<{it}> for {"&'a " if ref else ""}{e} {{
    open spec fn into_ok(self) -> bool {{ true }}
    open spec fn into_is(self, r: {it}) -> bool {{ r == {e}_num({"*" if ref else ""}self) }}
    fn v_into(self) -> (r: {it}) {{ {e}_to_{it}(self) }}
}}
"""
        c = Contract(f"{e}::from@From<{it}>")
        c.rename = "from_" + it
        c.argspec = lambda ps, e=e: f"    requires {e}_dom({ps[0]}),\n    ensures r == {e}_of({ps[0]}),"
        m.contracts[c.key] = c
        c = Contract(f"{it}::from@From<{src}>")
        c.free = [f"{e}_to_{it}", it]
        c.ret = "out"
        c.argspec = lambda ps, e=e, ref=ref: f"    ensures out == {e}_num({'*' if ref else ''}{ps[0]}),"
        m.contracts[c.key] = c
    return list(mods.values())


def lits(tags):
    out = ""
    for t in sorted(set(tags)):
        out += f'pub proof fn lit_{t}() ensures tag_ok("{t}"@), tag_plain("{t}"@), code_of("{t}"@) == {code(t)} {{ reveal(tag_ok); reveal(tag_plain); reveal(code_of); reveal_strlit("{t}"); }}\n'
    return out


def field_type(d, f):
    for n, ty in d["fields"]:
        if n == f:
            return ty
    return None


def upd(d, effs):
    """struct-update expression for the effects of one record; returns (conds, updates)"""
    conds, ups, o = [], [], 0
    for e in effs:
        k, f = e["k"], e.get("f")
        if k == "mark":
            continue
        conds.append(read_cond(k, o))
        v = read_val(k, o)
        if "." in f:
            a, b = f.split(".")
            ups.append(f"{a}: {field_type(d, a)} {{ {b}: {v}, ..b.{a} }}")
        elif "[" in f:
            a, i = f[:-1].split("[")
            ups.append(f"{a}: arr_upd(b.{a}, {i}, {v})")
        else:
            if e.get("opt"):
                v = f"Some({v})"
            ups.append(f"{f}: {v}")
        o += SIZES.get(k, 0)
    return conds, ups


def push_upd(e0, v=None):
    conds, v, f = [read_cond(e0["of"])], v or read_val(e0["of"]), e0["f"]
    if e0.get("plain"):
        return conds, [f"{f}: mk_vec(b.{f}@.push({v}))"]
    return conds, [f"{f}: Some(match b.{f} {{ Some(v) => mk_vec(v@.push({v})), None => mk_vec(seq![{v}]) }})"]


def all_tags(d):
    """every tag with its effects, own ones first"""
    wl = [(tag, effs) for tag, effs in d["tags"]]
    if d["timer"]:
        have = {t for t, _ in wl}
        wl += [(t, [e]) for t, e in (("TMON", {"f": "timer.is_enabled", "k": "bool"}), ("TMIN", {"f": "timer.interval", "k": "i32"})) if t not in have]
    if d["shared"]:
        wl += [(t, [{"f": f, "k": k, "opt": o}]) for t, f, k, o in SHARED]
    return wl


def wr_args(d, effs):
    """[(parameter, type, effect)] of the per-record writer lemma"""
    return [(f"v{i}", ktype(e["of"] if e["k"] == "push" else e["k"]), e) for i, e in enumerate(effs) if e["k"] != "mark"]


def wr_tag(T, d, tag, effs):
    args = wr_args(d, effs)
    pl, req, ups = None, [], []
    for v, ty, e in args:
        k = e["of"] if e["k"] == "push" else e["k"]
        q = payload(k, v)
        pl = q if pl is None else f"{pl} + {q}"
        val = valid(k, v)
        if val:
            req.append(val)
        if k == "sdata":
            req.append(f"g.size_opt == Some({v}@.len() as u32)")
        f = e["f"]
        if e["k"] == "push":
            ups.append(push_upd(e, v)[1][0].replace("b.", "g."))
        elif "." in f:
            a, b = f.split(".")
            ups.append(f"{a}: {field_type(d, a)} {{ {b}: {v}, ..g.{a} }}")
        elif "[" in f:
            a, i = f[:-1].split("[")
            ups.append(f"{a}: arr_upd(g.{a}, {i}, {v})")
        else:
            ups.append(f"{f}: " + (f"Some({v})" if e.get("opt") else v))
    pl = pl or "Seq::<u8>::empty()"
    gx = f"({T} {{ {', '.join(ups)}, ..g }})" if ups else "g"
    pre = "".join(f" broadcast use axiom_mk_arr; assert({v}@.len() == 16);" for v, ty, e in args if e["k"] == "arr16")
    ps = "".join(f", {v}: {ty}" for v, ty, _ in args)
    return f"""pub proof fn {T}_wr_{tag}(b: Seq<u8>, w0: Seq<u8>, w1: Seq<u8>, g: {T}{ps}) -> (g2: {T})
    requires {T}_I(b, w0, g), w1 == w0 + enc_rec("{tag}"@, {pl}){''.join(', ' + r for r in req)},
    ensures g2 == {gx}, {T}_I(b, w1, g2),
{{
    broadcast use {{{BC}}};
    lit_{tag}(); lit_ENDB();
    reveal({T}_rec);{''.join(f" reveal(pl_{e['k']});" for _, _, e in args if e['k'] in ('color', 'v2', 'v3', 'v3u', 'v4'))}
   {pre} {T}_wr(b, w0, w1, g, "{tag}"@, {pl})
}}
"""


def wr_vals(d, effs, me="self"):
    """the field values handed to the per-record lemma"""
    out = []
    for v, ty, e in wr_args(d, effs):
        f = e["f"]
        out.append(f"{me}.{f}{'' if e.get('plain') else '->0'}@[__i as int]" if e["k"] == "push" else f"{me}.{f}" + ("->0" if e.get("opt") else ""))
    return "".join(", " + o for o in out)


def shared_step(T):
    s = ""
    for t, f, k, o in SHARED:
        v = read_val(k)
        if o:
            v = f"Some({v})"
        s += f"if c == {code(t)} {{ if {read_cond(k)} {{ Some({T} {{ {f}: {v}, ..b }}) }} else {{ None }} }}\n    else "
    return s + "{ None }"


START0 = {"String": "mk_string(Seq::empty())", "Vec": "mk_vec(Seq::empty())", "Option": "None", "bool": "false"}

IMAGE_LEMMAS = """
/// what the reader takes as the end of a bitmap: the header of the record that follows it
pub open spec fn altv_head() -> Seq<u8> { seq![8u8, 0u8, 0u8, 0u8, 65u8, 76u8, 84u8, 86u8] }
/// a bitmap's compressed bytes: sub-blocks that end where the next record starts
pub open spec fn bits_ok(s: Seq<u8>) -> bool { s.len() <= 0x7fff_ffff && forall|d: Seq<u8>| #[trigger] blk_end(s + (altv_head() + d), 0, altv_head()) == Some(s.len() as int) }
/// bytes followed by an ALTV record
#[verifier::opaque] pub open spec fn ImageData_I2(b: Seq<u8>, w: Seq<u8>, g: ImageData) -> bool {
    w.len() >= b.len() && w.take(b.len() as int) == b && forall|v: u32, d: Seq<u8>| #[trigger] ImageData_parse(ImageData_start(), w.skip(b.len() as int) + (enc_rec("ALTV"@, b32(v)) + d)) == ImageData_parse(g, enc_rec("ALTV"@, b32(v)) + d)
}
pub open spec fn ImageData_J(b: Seq<u8>, w: Seq<u8>, g: ImageData) -> bool { ImageData_I2(b, w, g) && (g.bits is None ==> ImageData_I(b, w, g)) }
pub proof fn ImageData_I_J(b: Seq<u8>, w: Seq<u8>, g: ImageData)
    ensures ImageData_I(b, w, g) ==> ImageData_J(b, w, g),
{ reveal(ImageData_I); reveal(ImageData_I2); }
pub proof fn lemma_altv(v: u32, d: Seq<u8>)
    ensures enc_rec("ALTV"@, b32(v)) + d == altv_head() + (b32(v) + d),
{
    broadcast use vpin_base;
    reveal(enc_rec); reveal_strlit("ALTV");
    assert(b32(8) =~= seq![8u8, 0u8, 0u8, 0u8]) by { reveal(b32); assert((8u32 >> 0) & 0xff == 8 && (8u32 >> 8) & 0xff == 0 && (8u32 >> 16) & 0xff == 0 && (8u32 >> 24) & 0xff == 0) by (bit_vector); }
    assert(tag_bytes("ALTV"@) =~= seq![65u8, 76u8, 84u8, 86u8]);
    assert(b32(v).len() + 4 == 8);
    assert(altv_head() =~= b32(8) + tag_bytes("ALTV"@));
    assert(enc_rec("ALTV"@, b32(v)) + d =~= altv_head() + (b32(v) + d));
}
pub proof fn ImageData_wr_BITS(b: Seq<u8>, w0: Seq<u8>, w1: Seq<u8>, g: ImageData, x: ImageDataBits) -> (g2: ImageData)
    requires ImageData_J(b, w0, g), g.bits is None, bits_ok(x.lzw_compressed_data@), w1 == w0 + enc_rec_nosize("BITS"@, x.lzw_compressed_data@),
    ensures g2 == (ImageData { bits: Some(x), ..g }), ImageData_J(b, w1, g2),
{
    reveal_with_fuel(ImageData_parse, 2); reveal(ImageData_I); reveal(ImageData_I2); reveal(ImageData_step);
    lit_BITS(); lit_ENDB();
    let g2 = ImageData { bits: Some(x), ..g };
    let n = b.len() as int;
    let s = x.lzw_compressed_data@;
    let h = enc_rec_nosize("BITS"@, s);
    assert(mk_vec(s) == x.lzw_compressed_data) by { broadcast use axiom_mk_vec; }
    assert(w1.take(n) =~= w0.take(n));
    assert forall|v: u32, d0: Seq<u8>| #[trigger] ImageData_parse(ImageData_start(), w1.skip(n) + (enc_rec("ALTV"@, b32(v)) + d0)) == ImageData_parse(g2, enc_rec("ALTV"@, b32(v)) + d0) by {
        let d = enc_rec("ALTV"@, b32(v)) + d0;
        let e = h + d;
        assert(w1.skip(n) + d =~= w0.skip(n) + e);
        lemma_enc_rec_nosize("BITS"@, s, d);
        lemma_altv(v, d0);
        assert(ImageData_parse(ImageData_start(), w0.skip(n) + e) == ImageData_parse(g, e));
        let rest = s + d;
        assert(blk_end(rest, 0, altv_head()) == Some(s.len() as int));
        assert(rest.take(s.len() as int) =~= s); assert(rest.skip(s.len() as int) =~= d);
        assert(ImageData_step(g, code_of("BITS"@), rec_payload(e), rest) == Some((g2, d)));
        assert(d.len() >= 8);
    }
    g2
}
pub proof fn ImageData_wr_ALTV_b(b: Seq<u8>, w0: Seq<u8>, w1: Seq<u8>, g: ImageData, v0: f32) -> (g2: ImageData)
    requires ImageData_J(b, w0, g), w1 == w0 + enc_rec("ALTV"@, b32(f32_bits(v0))),
    ensures g2 == (ImageData { alpha_test_value: v0, ..g }), ImageData_I(b, w1, g2),
{
    broadcast use {axiom_f32_bits, lemma_b32, vpin_pl};
    reveal_with_fuel(ImageData_parse, 2); reveal(ImageData_I); reveal(ImageData_I2); reveal(ImageData_step); reveal(ImageData_rec);
    lit_ALTV(); lit_ENDB();
    let g2 = ImageData { alpha_test_value: v0, ..g };
    let n = b.len() as int;
    let v = f32_bits(v0);
    let p = b32(v);
    assert(w1.take(n) =~= w0.take(n));
    assert forall|d: Seq<u8>| #[trigger] ImageData_parse(ImageData_start(), w1.skip(n) + d) == ImageData_parse(g2, d) by {
        let e = enc_rec("ALTV"@, b32(v)) + d;
        assert(w1.skip(n) + d =~= w0.skip(n) + e);
        lemma_enc_rec("ALTV"@, p, d);
        assert(ImageData_parse(ImageData_start(), w0.skip(n) + (enc_rec("ALTV"@, b32(v)) + d)) == ImageData_parse(g, enc_rec("ALTV"@, b32(v)) + d));
        assert(ImageData_step(g, code_of("ALTV"@), p, d) == Some((g2, d)));
        if d.len() == 0 { assert(ImageData_parse(g2, d) is None); }
    }
    g2
}
pub proof fn ImageData_wr_JPEG(b: Seq<u8>, w0: Seq<u8>, w1: Seq<u8>, g: ImageData, x: ImageDataJpeg, e0: Seq<u8>) -> (g2: ImageData)
    requires ImageData_J(b, w0, g), g.bits is None, JpegS_written(Seq::empty(), e0, JpegS_of(x)), w1 == w0 + enc_rec_nosize("JPEG"@, e0),
    ensures g2 == (ImageData { jpeg: Some(x), ..g }), ImageData_J(b, w1, g2),
{
    reveal_with_fuel(ImageData_parse, 2); reveal(ImageData_I); reveal(ImageData_step);
    lit_JPEG(); lit_ENDB();
    let g2 = ImageData { jpeg: Some(x), ..g };
    let n = b.len() as int;
    let h = enc_rec_nosize("JPEG"@, e0);
    assert(w1.take(n) =~= w0.take(n));
    assert(e0.skip(0) =~= e0);
    assert forall|d: Seq<u8>| #[trigger] ImageData_parse(ImageData_start(), w1.skip(n) + d) == ImageData_parse(g2, d) by {
        let e = h + d;
        assert(w1.skip(n) + d =~= w0.skip(n) + e);
        lemma_enc_rec_nosize("JPEG"@, e0, d);
        assert(ImageData_parse(ImageData_start(), w0.skip(n) + e) == ImageData_parse(g, e));
        assert(JpegS_parse(JpegS_start(), e0 + d) == Some((JpegS_of(x), d)));
        assert(ImageData_step(g, code_of("JPEG"@), rec_payload(e), e0 + d) == Some((g2, d)));
        if d.len() == 0 { assert(ImageData_parse(g2, d) is None); }
    }
    ImageData_I_J(b, w1, g2);
    g2
}
pub proof fn lemma_blk_shift(d: Seq<u8>, p: int, q: int, h: Seq<u8>)
    requires 0 <= p <= d.len(), 0 <= q, h.len() > 0,
    ensures blk_end(d, p + q, h) == (match blk_end(d.skip(p), q, h) { Some(k) => Some(p + k), None => None }),
    decreases d.len() + 256 - p - q,
{
    let s = d.skip(p);
    if q < s.len() && s.len() - q >= h.len() {
        assert(s.subrange(q, q + h.len()) =~= d.subrange(p + q, p + q + h.len()));
        if s.subrange(q, q + h.len()) != h { lemma_blk_shift(d, p, q + 1 + s[q], h); }
    }
}
pub proof fn lemma_blk_le(d: Seq<u8>, p: int, h: Seq<u8>)
    requires blk_end(d, p, h) is Some,
    ensures p <= blk_end(d, p, h)->0 <= d.len(),
    decreases d.len() + 256 - p,
{ if d.subrange(p, p + h.len()) != h { lemma_blk_le(d, p + 1 + d[p], h); } }
pub broadcast proof fn lemma_skip2(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b),
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
"""


def image_roundtrip(T):
    return ""


def item_module(T):
    d = schema_of(T)
    m = Module("item_" + T, d["file"])
    m.broadcast = BC
    m.items = ["struct " + (d["struct"] if d.get("free") else T)]
    x = ""
    start = d.get("start", f"{T}_default()")
    if d.get("free"):
        m.items = m.items if d["struct"] else []
        start = "%s { %s }" % (T, ", ".join(f"{f}: {START0[ty.split('<')[0]]}" for f, ty in d["fields"]))
        x += f"/// the reader's state\npub struct {T} {{ {', '.join(f'pub {f}: {ty}' for f, ty in d['fields'])} }}\n" + d.get("extra", "")
    # ---- specification of the record format
    x += f"pub uninterp spec fn {T}_default() -> {T};\n"
    nones = [] if d.get("free") else [f"{T}_default().{f} is None" for f, ty in d["fields"] if ty.startswith("Option<") and f not in d.get("default_some", [])]
    nones += [f"{T}_default().{f}@.len() == 0" for f, ty in d["fields"] if ty.startswith("Vec<") and not d.get("free")]
    if not d.get("free"):
      x += f"pub axiom fn {T}_default_facts() ensures {', '.join(nones) or 'true'};\n"
    x += f"pub open spec fn {T}_start() -> {T} {{ {start} }}\n"
    body = ""
    special = ""
    for tag, effs in d["tags"]:
        e0 = effs[0]
        if e0["k"] == "dpnt":
            special += f"if c == {code(tag)} {{ if p.len() == 0 {{ match DragPoint_parse(DragPoint_start(), rest) {{ Some((x, r2)) => Some(({T} {{ {e0['f']}: mk_vec(b.{e0['f']}@.push(x)), ..b }}, r2)), None => None }} }} else {{ None }} }}\n    else "
            continue
        if e0["k"] == "font":
            special += f"if c == {code(tag)} {{ if p.len() == 0 && font_ok(rest) {{ Some(({T} {{ {e0['f']}: font_of(rest), ..b }}, font_rest(rest))) }} else {{ None }} }}\n    else "
            continue
        if e0["k"] == "jpeg":
            special += f"if c == {code(tag)} {{ if p.len() == 0 {{ match JpegS_parse(JpegS_start(), rest) {{ Some((x, r2)) => Some(({T} {{ {e0['f']}: Some(jpeg_of(x)), ..b }}, r2)), None => None }} }} else {{ None }} }}\n    else "
            continue
        if e0["k"] == "bits":
            special += f"if c == {code(tag)} {{ if p.len() == 0 && blk_end(rest, 0, altv_head()) is Some {{ let k = blk_end(rest, 0, altv_head())->0; Some(({T} {{ {e0['f']}: Some(ImageDataBits {{ lzw_compressed_data: mk_vec(rest.take(k)) }}), ..b }}, rest.skip(k))) }} else {{ None }} }}\n    else "
            continue
        if e0["k"] == "push":
            conds, ups = push_upd(e0)
        else:
            conds, ups = upd(d, effs)
        r = f"Some({T} {{ {', '.join(ups)}, ..b }})" if ups else "Some(b)"
        if conds and conds != ["true"]:
            r = f"if {' && '.join(conds)} {{ {r} }} else {{ None }}"
        body += f"if c == {code(tag)} {{ {r} }}\n    else "
    if d["timer"]:
        body += f"if tm_has(c) {{ match tm_step(b.timer, c, p) {{ Some(t) => Some({T} {{ timer: t, ..b }}), None => None }} }}\n    else "
    if d["shared"]:
        body += f"if sh_has(c) {{ {T}_sh_step(b, c, p) }}\n    else "
        x += f"pub open spec fn {T}_sh_step(b: {T}, c: int, p: Seq<u8>) -> Option<{T}> {{\n    {shared_step(T)}\n}}\n"
    x += f"/// effect of one framed record with tag code c and payload p\n#[verifier::opaque] pub open spec fn {T}_rec(b: {T}, c: int, p: Seq<u8>) -> Option<{T}> {{\n    {body}{{ Some(b) }}\n}}\n"
    x += f"#[verifier::opaque] pub open spec fn {T}_step(b: {T}, c: int, p: Seq<u8>, rest: Seq<u8>) -> Option<({T}, Seq<u8>)> {{\n    {special}{{ match {T}_rec(b, c, p) {{ Some(b2) => Some((b2, rest)), None => None }} }}\n}}\n"
    x += f"""/// the value encoded by the record sequence d (up to and including its ENDB), starting from b, and what follows
#[verifier::opaque] pub open spec fn {T}_parse(b: {T}, d: Seq<u8>) -> Option<({T}, Seq<u8>)> decreases d.len() {{
    if !rec_ok(d) {{ None }}
    else if rec_tag(d) == "ENDB"@ {{ if rec_payload(d).len() == 0 {{ Some((b, rec_rest(d))) }} else {{ None }} }}
    else {{ match {T}_step(b, code_of(rec_tag(d)), rec_payload(d), rec_rest(d)) {{
        Some((b2, r2)) => if 0 < r2.len() <= rec_rest(d).len() {{ {T}_parse(b2, r2) }} else {{ None }},
        None => None }} }}
}}
"""
    tags = [t for t, _ in d["tags"]] + (["TMON", "TMIN"] if d["timer"] else []) + ([t for t, *_ in SHARED] if d["shared"] else []) + ["ENDB"]
    m.tags = tags
    m.enums = sorted({e["k"][5:] for _, es in d["tags"] for e in es if e["k"].startswith("enum:")})
    m.uses_dp = any(es[0]["k"] == "dpnt" for _, es in d["tags"])
    m.uses_font = any(es[0]["k"] == "font" for _, es in d["tags"])
    # ---- validity of values
    seen, vs = set(), []
    for tag, effs in d["tags"]:
        for e in effs:
            f, k = e.get("f"), e["k"]
            if not f or f in seen or "." in f or "[" in f:
                continue
            seen.add(f)
            if k == "dpnt":
                vs.append(f"forall|i: int| #![auto] 0 <= i < x.{f}@.len() ==> DragPoint_valid(x.{f}@[i])")
                continue
            if k in ("push", "jpeg", "bits"):
                continue
            if e.get("opt"):
                v = valid(k, f"x.{f}->0")
                if v:
                    vs.append(f"(x.{f} is Some ==> {v})")
            else:
                v = valid(k, f"x.{f}")
                if v:
                    vs.append(v)
    if d["shared"]:
        vs += ["(x.editor_layer_name is Some ==> str_valid(x.editor_layer_name->0@))", "(x.part_group_name is Some ==> str_valid(x.part_group_name->0@))"]
    vs += d.get("valid", [])
    x += f"/// values the format can carry\npub open spec fn {T}_valid(x: {T}) -> bool {{ {' && '.join(f'({v})' for v in vs) or 'true'} }}\n"
    # ---- writer relation
    x += f"""pub open spec fn {T}_written(b: Seq<u8>, w: Seq<u8>, x: {T}) -> bool {{
    w.len() > b.len() && w.take(b.len() as int) == b && forall|d: Seq<u8>| #[trigger] {T}_parse({T}_start(), w.skip(b.len() as int) + d) == Some((x, d))
}}
#[verifier::opaque] pub open spec fn {T}_I(b: Seq<u8>, w: Seq<u8>, g: {T}) -> bool {{
    w.len() >= b.len() && w.take(b.len() as int) == b && forall|d: Seq<u8>| #[trigger] {T}_parse({T}_start(), w.skip(b.len() as int) + d) == {T}_parse(g, d)
}}
pub proof fn {T}_I_init(b: Seq<u8>) ensures {T}_I(b, b, {T}_start())
{{
    reveal({T}_I);
    assert(b.take(b.len() as int) =~= b);
    assert forall|d: Seq<u8>| #[trigger] {T}_parse({T}_start(), b.skip(b.len() as int) + d) == {T}_parse({T}_start(), d) by {{ assert(b.skip(b.len() as int) + d =~= d); }}
}}
pub proof fn {T}_wr(b: Seq<u8>, w0: Seq<u8>, w1: Seq<u8>, g: {T}, t: Seq<char>, p: Seq<u8>) -> (g2: {T})
    requires {T}_I(b, w0, g), tag_ok(t), t != "ENDB"@, w1 == w0 + enc_rec(t, p), p.len() + 4 <= u32::MAX,
        {T}_rec(g, code_of(t), p) is Some, {' && '.join(f'code_of(t) != {code(tag)}' for tag, es in d['tags'] if es[0]['k'] in ('dpnt', 'font', 'jpeg', 'bits')) or 'true'},
    ensures g2 == {T}_rec(g, code_of(t), p)->0, {T}_I(b, w1, g2),
{{
    reveal_with_fuel({T}_parse, 2); reveal({T}_I); reveal({T}_step);
    let g2 = {T}_rec(g, code_of(t), p)->0;
    let n = b.len() as int;
    assert(w1.take(n) =~= w0.take(n));
    assert forall|d: Seq<u8>| #[trigger] {T}_parse({T}_start(), w1.skip(n) + d) == {T}_parse(g2, d) by {{
        let e = enc_rec(t, p) + d;
        assert(w1.skip(n) + d =~= w0.skip(n) + e);
        lemma_enc_rec(t, p, d);
        assert({T}_parse({T}_start(), w0.skip(n) + e) == {T}_parse(g, e));
        assert({T}_step(g, code_of(t), p, d) == Some((g2, d)));
        if d.len() == 0 {{ assert({T}_parse(g2, d) is None); }}
    }}
    g2
}}
pub proof fn {T}_wr_end(b: Seq<u8>, w0: Seq<u8>, w1: Seq<u8>, g: {T})
    requires {T}_I(b, w0, g), w1 == w0 + enc_rec("ENDB"@, Seq::<u8>::empty()),
    ensures {T}_written(b, w1, g),
{{
    reveal({T}_I); reveal({T}_parse);
    lit_ENDB();
    let n = b.len() as int;
    assert(w1.take(n) =~= w0.take(n));
    assert forall|d: Seq<u8>| #[trigger] {T}_parse({T}_start(), w1.skip(n) + d) == Some((g, d)) by {{
        let e = enc_rec("ENDB"@, Seq::<u8>::empty()) + d;
        assert(w1.skip(n) + d =~= w0.skip(n) + e);
        lemma_enc_rec("ENDB"@, Seq::<u8>::empty(), d);
        assert({T}_parse({T}_start(), w0.skip(n) + e) == {T}_parse(g, e));
    }}
    lemma_enc_rec("ENDB"@, Seq::<u8>::empty(), Seq::<u8>::empty());
}}
"""
    wl = all_tags(d)
    for tag, effs in wl:
        if effs[0]["k"] in ("dpnt", "font", "jpeg", "bits"):
            continue
        x += wr_tag(T, d, tag, effs)
    for tag, effs in d["tags"]:
        e0 = effs[0]
        if e0["k"] == "dpnt":
            x += f"""pub proof fn {T}_wr_dp(b: Seq<u8>, w0: Seq<u8>, w1: Seq<u8>, g: {T}, x: DragPoint) -> (g2: {T})
    requires {T}_I(b, w0, g), DragPoint_written(w0 + enc_rec("{tag}"@, Seq::<u8>::empty()), w1, x),
    ensures g2 == ({T} {{ {e0['f']}: mk_vec(g.{e0['f']}@.push(x)), ..g }}), {T}_I(b, w1, g2),
{{
    reveal_with_fuel({T}_parse, 2); reveal({T}_I); reveal({T}_step);
    lit_{tag}(); lit_ENDB();
    let g2 = {T} {{ {e0['f']}: mk_vec(g.{e0['f']}@.push(x)), ..g }};
    let n = b.len() as int;
    let h = enc_rec("{tag}"@, Seq::<u8>::empty());
    let k = (w0 + h).len() as int;
    let s = w1.skip(k);
    lemma_enc_rec("{tag}"@, Seq::<u8>::empty(), Seq::<u8>::empty());
    assert(w1 =~= w0 + h + s) by {{ assert(w1.take(k) =~= w0 + h); assert(w1 =~= w1.take(k) + s); }}
    assert(w1.take(n) =~= w0.take(n));
    assert forall|d: Seq<u8>| #[trigger] {T}_parse({T}_start(), w1.skip(n) + d) == {T}_parse(g2, d) by {{
        let e = h + (s + d);
        assert(w1.skip(n) + d =~= w0.skip(n) + e);
        lemma_enc_rec("{tag}"@, Seq::<u8>::empty(), s + d);
        assert({T}_parse({T}_start(), w0.skip(n) + e) == {T}_parse(g, e));
        assert(DragPoint_parse(DragPoint_start(), s + d) == Some((x, d)));
        assert({T}_step(g, code_of("{tag}"@), Seq::<u8>::empty(), s + d) == Some((g2, d)));
        if d.len() == 0 {{ assert({T}_parse(g2, d) is None); }}
    }}
    g2
}}
"""
        if e0["k"] == "font":
            x += f"""pub proof fn {T}_wr_font(b: Seq<u8>, w0: Seq<u8>, w1: Seq<u8>, g: {T}, x: Font) -> (g2: {T})
    requires {T}_I(b, w0, g), font_valid(x), w1 == w0 + enc_rec_nosize("{tag}"@, font_enc(x)),
    ensures g2 == ({T} {{ {e0['f']}: x, ..g }}), {T}_I(b, w1, g2),
{{
    reveal_with_fuel({T}_parse, 2); reveal({T}_I); reveal({T}_step);
    lit_{tag}(); lit_ENDB();
    let g2 = {T} {{ {e0['f']}: x, ..g }};
    let n = b.len() as int;
    let h = enc_rec_nosize("{tag}"@, font_enc(x));
    assert(w1.take(n) =~= w0.take(n));
    assert forall|d: Seq<u8>| #[trigger] {T}_parse({T}_start(), w1.skip(n) + d) == {T}_parse(g2, d) by {{
        let e = h + d;
        assert(w1.skip(n) + d =~= w0.skip(n) + e);
        lemma_enc_rec_nosize("{tag}"@, font_enc(x), d);
        assert({T}_parse({T}_start(), w0.skip(n) + e) == {T}_parse(g, e));
        lemma_font(x, d);
        assert({T}_step(g, code_of("{tag}"@), rec_payload(e), font_enc(x) + d) == Some((g2, d)));
        if d.len() == 0 {{ assert({T}_parse(g2, d) is None); }}
    }}
    g2
}}
"""
    if d.get("image"):
        x += IMAGE_LEMMAS + image_roundtrip(T)
    if d["shared"]:
        calls = ""
        for tag, f, k, o in SHARED:
            pl = payload(k, "x->0" if o else "x")
            vd = valid(k, "x->0")
            if o:
                x += f"""pub proof fn {T}_wo_{tag}(b: Seq<u8>, w0: Seq<u8>, g: {T}, x: Option<{ktype(k)}>) -> (r: ({T}, Seq<u8>))
    requires {T}_I(b, w0, g), g.{f} is None,{f' x is Some ==> {vd},' if vd else ''}
    ensures r.0 == ({T} {{ {f}: x, ..g }}), r.1 == (if x is Some {{ w0 + enc_rec("{tag}"@, {pl}) }} else {{ w0 }}), {T}_I(b, r.1, r.0),
{{
    if x is Some {{ let w1 = w0 + enc_rec("{tag}"@, {pl}); ({T}_wr_{tag}(b, w0, w1, g, x->0), w1) }} else {{ (g, w0) }}
}}
"""
                calls += f"    let (g, w) = {T}_wo_{tag}(b, w, g, x.{f});\n"
        x += f"""pub proof fn {T}_wr_shared(b: Seq<u8>, w0: Seq<u8>, w1: Seq<u8>, g: {T}, x: {T}) -> (g2: {T})
    requires {T}_I(b, w0, g), {', '.join(f'g.{f} is None' for _, f, _, o in SHARED if o)}, {T}_valid(x), w1 == {T}_sh_wr(w0, x),
    ensures g2 == ({T} {{ {', '.join(f'{f}: x.{f}' for _, f, _, o in SHARED)}, ..g }}), {T}_I(b, w1, g2),
{{
    reveal({T}_sh_wr);
    let w = w0 + enc_rec("LOCK"@, pl_bool(x.is_locked));
    let g = {T}_wr_LOCK(b, w0, w, g, x.is_locked);
{calls}    g
}}
"""
    if d.get("free"):
        m.extra = x
        return free_contracts(T, d, m)
    x += f"""/// reading back what was written gives the value: composed from the two contracts only
pub fn {T}_roundtrip(x: &{T}) -> (r: {T})
    requires {T}_valid(*x),
    ensures r == *x,
{{
    broadcast use {{vpin_base, vpin_str, vpin_seq, vpin_rd, lemma_wdone}};
    proof {{ reveal_strlit(""); }}
    let mut w = BiffWriter::new();
    {d["fnwrite"] + "(x, &mut w)" if d.get("fnwrite") else "x.biff_write(&mut w)"};
    let mut r = BiffReader::new(w.get_data());
    proof {{ let d = w.data@; assert(d.skip(0) + Seq::<u8>::empty() =~= d); assert(Seq::<u8>::empty() + d =~= d); }}
    {d["fnread"] if d.get("fnread") else T + "::biff_read"}(&mut r)
}}
"""
    m.extra = x
    # ---- contracts of the real functions
    c = Contract(f"{T}::default")
    c.external = True
    c.spec = f"    ensures r == {T}_default(),"
    m.contracts[c.key] = c
    c = Contract(f"{T}::default@facts")
    c.source = f"{T}::default"
    c.free = [f"{T}_default_check", T]
    c.spec = f"    ensures {', '.join(n.replace(f'{T}_default()', 'r') for n in nones) or 'true'},"
    c.transform = vc.default_skeleton(T, {f: ty.split("<")[0] for f, ty in d["fields"] if ty.startswith(("Option<", "Vec<"))})
    m.contracts[c.key] = c
    if d.get("image"):
        for key, w in (("biff_read", "r"), ("biff_write", "w")):
            c = Contract(f"{T}::{key}")
            c.delegate = (T, w)
            m.contracts[c.key] = c
    for key in [d["fnread"]] if d.get("fnread") else [f"{T}::biff_read"]:
        c = Contract(key)
        c.rdvar = True
        c.item = (T, "r")
        m.contracts[c.key] = c
    for key in [d["fnwrite"]] if d.get("fnwrite") else [f"{T}::biff_write"]:
        c = Contract(key)
        c.ghost = local_of_param(d["file"], key, 1, "writer")
        c.item = (T, "w")
        m.contracts[c.key] = c
    if d["shared"]:
        for n in ("is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility", "part_group_name"):
            c = Contract(f"{T}::{n}")
            c.spec = f"    ensures " + (f"r == self.{n}," if "name" not in n else f"(r is Some) == (self.{n} is Some), r is Some ==> r->0@ == self.{n}->0@,")
            m.contracts[c.key] = c
            c = Contract(f"{T}::set_{n}")
            c.argspec = lambda ps, n=n: f"    ensures *final(self) == ({T} {{ {n}: {ps[1]}, ..*old(self) }}),"
            m.contracts[c.key] = c
    return m


def make_arms(T, d, tags, cur, rd, rinv):
    def arms(var, lits, lit):
        use = [lit] if lit is not None else sorted(set(tags))
        if lit is not None and lit not in tags:
            use = sorted(set(tags))      # a tag the format does not know: it must behave as a skipped record
        L = " ".join(f"lit_{t}();" for t in use)
        which = f'{var}@ == "{lit}"@,' if lit is not None else " ".join(f'{var}@ != "{t}"@,' for t in lits)
        i = f"""    invariant_except_break {cur} == __b, {rd}.cur() == __p, {rd}.rest() == rec_rest(__r),
    invariant {rd}.wf(), rec_rest(__r).len() > 0, {T}_step(__b, __c, __p, rec_rest(__r)) is Some, __c == code_of({var}@), tag_plain({var}@), {which} {rinv}
    ensures {T}_step(__b, __c, __p, rec_rest(__r)) == Some(({cur}, {rd}.rest())),
    decreases 0int,"""
        if lit is None:
            L += "".join(f' if __c == {code(t)} {{ lit_{t}(); lemma_code_inj({var}@, "{t}"@); }}' for t in lits if t in tags)
        multi = lit is not None and len(dict(all_tags(d)).get(lit, [])) > 1
        end = ""
        for e in dict(all_tags(d)).get(lit, []) if lit else []:
            if "[" in e.get("f", ""):
                fa, ia = e["f"][:-1].split("[")
                end += f"proof {{ lemma_arr_upd(__b.{fa}, {cur}.{fa}, {ia}, {read_val(e['k']).replace('(p', '(__p')}); }}\n"
            if e["k"] == "arr16":
                end += f"proof {{ broadcast use axiom_mk_arr; assert({cur}.{e['f']}->0@ =~= __p); assert({cur}.{e['f']}->0 == mk_arr::<16>({cur}.{e['f']}->0@)); }}\n"
            if e["k"] == "bits":
                L += f" lemma_blk_shift({rd}.data@, {rd}.pos as int, 0, altv_head()); let __q = {rd}.data@.skip({rd}.pos as int); if blk_end(__q, 0, altv_head()) is Some {{ lemma_blk_le(__q, 0, altv_head()); let __k = blk_end(__q, 0, altv_head())->0; assert({rd}.data@.subrange({rd}.pos as int, {rd}.pos + __k) =~= __q.take(__k)); assert({rd}.data@.skip({rd}.pos + __k) =~= __q.skip(__k)); }}"
            if e["k"] in ("sdata", "data") and d.get("free"):
                end += f"proof {{ assert({cur}.{e['f']}@ =~= __p); assert({cur}.{e['f']} == mk_vec({cur}.{e['f']}@)); }}\n"
            if e["k"] == "push":
                fx = f"{cur}.{e['f']}"
                if e.get("plain"):
                    end += f"proof {{ let v = {read_val(e['of']).replace('(p', '(__p')}; assert({fx}@ =~= __b.{e['f']}@.push(v)); assert({fx} == mk_vec({fx}@)); }}\n"
                    continue
                end += f"proof {{ let v = {read_val(e['of']).replace('(p', '(__p')}; let n = {fx}->0; "
                if e["of"] == "data":
                    end += "assert(n@.last()@ =~= __p); assert(n@.last() == mk_vec(n@.last()@)); "
                end += f"assert(n@ =~= (match __b.{e['f']} {{ Some(o) => o@.push(v), None => seq![v] }})); assert(n == mk_vec(n@)); }}\n"
        return i, f"broadcast use {{{BC}{', lemma_u32_at_skip' if multi else ''}}}; proof {{ reveal({T}_rec); reveal({T}_step); {L} }}\n", end
    return arms


def fix_reader(c, f, T):
    """contract text that depends on local names chosen by the code"""
    d = schema_of(T)
    body = f["body"]
    m = re.search(r"let mut (\w+)(?:: \w+)? = (?:%s|Self)(?:::default\(\)| \{)" % T, body)
    var = m.group(1) if m else "__no_item_variable"
    m = re.search(r"(\w+)\.next\(", body)
    rd = m.group(1) if m else "reader"
    p = f["params"][0].split(":")[0].strip() if f["params"] else "reader"
    start = f"{T}_parse({T}_start(), old({p}).rest())"
    req = f"old({p}).wf(), {start} is Some, "
    if d["child"]:
        req += f"old({p}).cur().len() == 0,"
    else:
        req += f"old({p}).warn_remaining ==> p_rest({start}).len() == 0,"
    c.spec = f"    requires {req}\n    ensures r == p_val({start}), final({p}).rest() == p_rest({start}), final({p}).wf(), final({p}).cur().len() == 0, final({p}).data == old({p}).data, final({p}).warn_remaining == old({p}).warn_remaining,"
    tags = [t for t, _ in d["tags"]] + ["ENDB"]
    if d["timer"]:
        tags += ["TMON", "TMIN"]
    if d["shared"]:
        tags += [s[0] for s in SHARED]
    c.start = f"proof {{ {T}_default_facts(); }}\nlet ghost __rest0 = {p}.rest(); let ghost __d0 = {p}.data@; let ghost __q0 = {p}.pos as int;"
    cur = var
    if d.get("locals"):
        ups = []
        for fld in d["locals"]:
            mm = re.search(r"\b%s\.%s = (\w+);" % (var, fld), body)
            if mm:
                ups.append(f"{fld}: {mm.group(1)}")
        cur = f"({T} {{ {', '.join(ups)}, ..{var} }})" if ups else var
    exc = f"{T}_parse({cur}, {rd}.rest()) == {T}_parse({T}_start(), __rest0),"
    if d["child"]:
        rinv = f"!{rd}.warn_remaining, {rd}.data@ == __rest0,"
    else:
        rinv = f"{rd}.warn_remaining == old({p}).warn_remaining, {rd}.data == old({p}).data,"
    inv = f"{rd}.wf(), {T}_parse({T}_start(), __rest0) is Some, {rinv}"
    if not d["child"]:
        inv += f" {rd}.warn_remaining ==> p_rest({T}_parse({T}_start(), __rest0)).len() == 0,"
    ens = f"{rd}.wf(), {rd}.cur().len() == 0, Some(({cur}, {rd}.rest())) == {T}_parse({T}_start(), __rest0),"
    c.loops = {0: f"    invariant_except_break {exc}\n    invariant {inv}\n    ensures {ens}\n    decreases {rd}.rest().len(),"}
    c.loop_start = {0: f"""broadcast use {{{BC}}};
let ghost __b = {cur}; let ghost __r = {rd}.rest(); let ghost __c = code_of(rec_tag(__r)); let ghost __p = rec_payload(__r);
proof {{ reveal({T}_parse); lit_ENDB(); assert(rec_ok(__r)); lemma_rec_tag_plain(__r);
    assert(rec_tag(__r) != "ENDB"@ ==> {T}_step(__b, __c, __p, rec_rest(__r)) is Some && rec_rest(__r).len() > 0);
    assert({rd}.warn_remaining && rec_tag(__r) == "ENDB"@ ==> rec_rest(__r).len() == 0 && rec_payload(__r).len() == 0); }}"""}
    if d["child"]:
        c.after_loop = {0: f"proof {{ assert({rd}.rest() =~= __d0.skip(__q0 + {rd}.pos)); }}"}

    c.arms = make_arms(T, d, tags, cur, rd, rinv)


def local_of(file, fn, pat, default):
    """the name a function of /repo gives to a local (contracts mention it)"""
    try:
        t = open(os.path.join(vc.REPO, file)).read()
    except OSError:
        return default
    m = re.search(r"\bfn %s\b[^{]*\{(.*?)\n\}" % fn, t, re.S)
    k = re.search(pat, m.group(1)) if m else None
    return k.group(1) if k else default


def local_of_param(file, fn, n, default):
    """the name of parameter n of a function of /repo"""
    try:
        t = open(os.path.join(vc.REPO, file)).read()
    except OSError:
        return default
    m = re.search(r"\bfn %s\b[^(]*\(([^)]*)\)" % fn.split("::")[-1], t)
    ps = vc.split_top(m.group(1)) if m else []
    return ps[n].split(":")[0].replace("mut ", "").strip() if len(ps) > n and ":" in ps[n] else default


def free_contracts(T, d, m):
    """codecs that are plain functions over a whole stream: read(&[u8]) -> R, write(&R) -> Vec<u8>"""
    R = d["struct"] or d["rtype"]
    of = ", ".join(f"{f}: {e}" for f, e in d["of"])
    if d.get("inner"):
        m.extra += f"pub open spec fn {T}_of(x: {R}) -> {T} {{ {T} {{ {of} }} }}\n"
    else: m.extra += f"""pub open spec fn {T}_of(x: {R}) -> {T} {{ {T} {{ {of} }} }}
/// reading back what was written gives the value: composed from the two contracts only
pub fn {T}_roundtrip(x: &{R}) -> (r: {R})
    requires {T}_valid({T}_of(*x)),
    ensures {d.get("same", "r == *x")},
{{
    broadcast use {{vpin_base, vpin_str, vpin_seq}};
    let v = {T}_write(x);
    proof {{ let d = v@; assert(d.skip(0) + Seq::<u8>::empty() =~= d); }}
    {T}_read(v.as_slice())
}}
"""
    for key, which in ((d["writer"], "w"), (d["reader"], "r")):
        c = Contract(key)
        if not d.get("inner"):
            c.rename = f"{T}_write" if which == "w" else f"{T}_read"
        c.freeitem = (T, which)
        if which == "w":
            c.ghost = local_of(d["file"], key, r"let mut (\w+)(?::[^=]*)? = BiffWriter::new", "writer")
            c.ret = "out"
        m.contracts[key] = c
    return m


def fix_free(c, f, T, which):
    d = schema_of(T)
    p = f["params"][0].split(":")[0].strip()
    body = f["body"]
    tags = [t for t, _ in d["tags"]] + ["ENDB"]
    if which == "w":
        w = c.ghost
        L = " ".join(f"lit_{t}();" for t in sorted(set(tags)))
        c.spec = f"    requires {T}_valid({T}_of(*{p})),\n    ensures {T}_written(Seq::empty(), out@, {T}_of(*{p})),"
        c.broadcast = BCW + ", vpin_base, vpin_seq"
        c.start = f"""let ghost mut __g: {T} = {T}_start(); let ghost __b = Seq::<u8>::empty(); let ghost mut __w = Seq::<u8>::empty(); let ghost __x = {T}_of(*{p});
proof {{ {L} {T}_I_init(__b); reveal_strlit(""); }}"""
        effs_of = dict(d["tags"])
        asserts = "".join(f"assert(__g.{n} == __x.{n});\n" for n, ty in d["fields"]) + "assert(__g == __x);"

        def after(n, meth, lit, full):
            k = meth.split("::")[-1]
            if k == "close":
                return f"proof {{ {asserts} {T}_wr_end(__b, __w, {w}.data@, __g); }}" if "true" in full else None
            if k.startswith("write_tagged") and lit in effs_of:
                return f"proof {{ __g = {T}_wr_{lit}(__b, __w, {w}.data@, __g{wr_vals(d, effs_of[lit], '__x')}); __w = {w}.data@; }}"
            return None

        c.after = after
        for tag, es in d["tags"]:
            if es[0]["k"] == "push":
                fld = es[0]["f"]
                c.loops = {0: f"""iter __it
    invariant {w}.wf(), {w}.open() ==> {w}.record_size <= u32::MAX, __w == {w}.done(), {T}_I(__b, __w, __g), {T}_valid(__x), __it.seq().len() == __x.{fld}@.len(), forall|i: int| #![auto] 0 <= i < __x.{fld}@.len() ==> *__it.seq()[i] == __x.{fld}@[i],
        __g == ({T} {{ {fld}: mk_vec(__x.{fld}@.take(__it.index())), ..__g0 }}),"""}
                c.before_loop = {0: f"let ghost __g0 = __g; proof {{ assert(__x.{fld}@.take(0) =~= Seq::empty()); assert(__g == ({T} {{ {fld}: mk_vec(__x.{fld}@.take(0)), ..__g0 }})); }}"}
                c.loop_start = {0: f"broadcast use {{{BCW}}}; proof {{ lit_{tag}(); reveal_strlit(\"\"); assert(__x.{fld}@.take(__it.index() + 1) =~= __x.{fld}@.take(__it.index()).push(__x.{fld}@[__it.index()])); axiom_mk_vec_shorter(__x.{fld}@.take(__it.index()), __x.{fld}); }} let ghost __i = __it.index();"}
                c.after_loop = {0: f"proof {{ assert(__x.{fld}@.take(__x.{fld}@.len() as int) =~= __x.{fld}@); broadcast use axiom_mk_vec; assert(mk_vec(__x.{fld}@) == __x.{fld}); }}"}
        return
    inner = d.get("inner")
    start = f"{T}_parse({T}_start(), old({p}).rest())" if inner else f"{T}_parse({T}_start(), {p}@)"
    mm = re.search(r"(\w+)\.next\(", body)
    rd = mm.group(1) if mm else "reader"
    # the local that holds each field: the final struct literal, or the one vector
    var, lit = {}, None
    if d["struct"]:
        for lit in re.finditer(r"\b%s \{" % d["struct"], body):
            pass
        if lit:
            e = vc.match_brace(body, lit.end() - 1)
            for q in vc.split_top(body[lit.end():e - 1]):
                k = re.match(r"(\w+)\s*(?::\s*(\w+))?$", q)
                if k:
                    var[k.group(1)] = k.group(2) or k.group(1)
    else:
        k = re.search(r"let mut (\w+)(?:: [\w<>]+)? = (?:%s|Vec)::" % R_alias(d), body)
        var[d["fields"][0][0]] = k.group(1) if k else "__no_local"
    if any(f == "size_opt" for f, _ in d["fields"]):
        k = re.search(r"let mut (\w+): Option<u32>", body) or re.search(r"let mut (\w*size\w*)\b", body)
        var["size_opt"] = k.group(1) if k else "__no_local"
    cur = f"({T} {{ {', '.join(f'{n}: ' + var.get(n, '__no_local') for n, _ in d['fields'])} }})"
    out = " && ".join(f"p_val({start}).{n} == r.{n}" for n, _ in d["fields"] if n != "size_opt") if d["struct"] else f"p_val({start}).{d['fields'][0][0]} == r"
    c.spec = f"    requires {start} is Some, p_rest({start}).len() == 0,\n    ensures {out},"
    c.broadcast = "vpin_base, vpin_str, vpin_seq, " + BC
    c.start = f"let ghost __rest0 = {p}@; proof {{ reveal_strlit(\"\"); }}"
    init = " ".join(f"assert({var[n]}@ =~= Seq::empty());" for n, ty in d["fields"] if n in var and ty.split("<")[0] in ("String", "Vec"))
    c.before_loop = {0: f"proof {{ {init} assert({cur} == {T}_start()); assert({rd}.rest() =~= {p}@); }}"}
    rinv = f"{rd}.warn_remaining, {rd}.data@ == __rest0,"
    exc = f"{T}_parse({cur}, {rd}.rest()) == {T}_parse({T}_start(), __rest0),"
    inv = f"{rd}.wf(), {T}_parse({T}_start(), __rest0) is Some, {rinv} p_rest({T}_parse({T}_start(), __rest0)).len() == 0,"
    ens = f"Some(({cur}, {rd}.rest())) == {T}_parse({T}_start(), __rest0),"
    c.loops = {0: f"    invariant_except_break {exc}\n    invariant {inv}\n    ensures {ens}\n    decreases {rd}.rest().len(),"}
    c.loop_start = {0: f"""broadcast use {{{BC}}};
let ghost __b = {cur}; let ghost __r = {rd}.rest(); let ghost __c = code_of(rec_tag(__r)); let ghost __p = rec_payload(__r);
proof {{ reveal({T}_parse); lit_ENDB(); assert(rec_ok(__r)); lemma_rec_tag_plain(__r);
    assert(rec_tag(__r) != "ENDB"@ ==> {T}_step(__b, __c, __p, rec_rest(__r)) is Some && rec_rest(__r).len() > 0);
    assert({rd}.warn_remaining && rec_tag(__r) == "ENDB"@ ==> rec_rest(__r).len() == 0 && rec_payload(__r).len() == 0); }}"""}
    if inner:      # the reader is the caller's: a child reader over the bytes that follow
        c.spec = f"    requires old({p}).wf(), !old({p}).warn_remaining, old({p}).cur().len() == 0, {start} is Some,\n    ensures {out}, final({p}).wf(), final({p}).cur().len() == 0, final({p}).rest() == p_rest({start}), final({p}).data == old({p}).data,"
        c.start = f"let ghost __rest0 = {p}.rest(); proof {{ reveal_strlit(\"\"); }}"
        c.before_loop = {0: f"proof {{ {init} assert({cur} == {T}_start()); }}"}
        rinv = f"!{rd}.warn_remaining, {rd}.data == old({p}).data,"
        inv = f"{rd}.wf(), {T}_parse({T}_start(), __rest0) is Some, {rinv}"
        c.loops = {0: f"    invariant_except_break {exc}\n    invariant {inv}\n    ensures {ens} {rd}.cur().len() == 0,\n    decreases {rd}.rest().len(),"}
    vecs = [n for n, ty in d["fields"] if ty.startswith("Vec")]
    if d["struct"]:
        c.post = "".join(f"assert(__ret.{n}@ == __ret.{n}@); assert(__ret.{n} == mk_vec(__ret.{n}@));" for n in vecs)
    c.after_loop = {0: "proof { " + " ".join(f"assert({var[n]} == mk_vec({var[n]}@));" for n in vecs if n in var) + " }"}
    c.arms = make_arms(T, d, tags, cur, rd, rinv)


def R_alias(d):
    return d.get("alias", "Vec")


def zipvars(f):
    """the two vectors a paired loop walks over"""
    m = re.search(r"in (\w+)\.iter\(\)\.zip\((\w+)", f["body"])
    return m.groups() if m else ("__zip_a", "__zip_b")


def fix_writer(c, f, T):
    d = schema_of(T)
    w = next((q.split(":")[0].strip() for q in f["params"][1:]), "writer")
    c.spec = f"""    requires old({w}).wf(), {T}_valid(*self), old({w}).open() ==> old({w}).record_size <= u32::MAX,
    ensures final({w}).wf(), !final({w}).open(), {T}_written(old({w}).done(), final({w}).data@, *self),"""
    tags = [t for t, _ in d["tags"]] + ["ENDB"] + (["TMON", "TMIN"] if d["timer"] else []) + ([s[0] for s in SHARED] if d["shared"] else [])
    L = " ".join(f"lit_{t}();" for t in sorted(set(tags)))
    c.broadcast = BCW
    c.start = f"""let ghost mut __g: {T} = {T}_start(); let ghost __b = {w}.done(); let ghost mut __w = {w}.done(); let ghost mut __h: {T} = __g;
proof {{ lit_ENDB(); {T}_I_init(__b); {T}_default_facts(); reveal_strlit(""); }}"""
    effs_of = dict(all_tags(d))

    def isolate(hooks):
        tags = []
        for m, lit in hooks:
            if m == "biff_write_tmon":
                tags.append("TMON")
            elif m == "biff_write_tmin":
                tags.append("TMIN")
            elif m == "write_shared_attributes":
                tags += [t[0] for t in SHARED]
            elif m == "biff_write" and d["timer"] and not any(x[0] == "new_tag" for x in hooks):
                tags += ["TMON", "TMIN"]
            elif (m == "new_tag" or m.startswith("write_")) and lit:
                tags.append(lit)
        if not tags or any(t not in effs_of or effs_of[t][0]["k"] in ("dpnt", "push") for t in tags):
            return None
        fs = sorted({re.split(r"[.\[]", e["f"])[0] for t in tags for e in effs_of[t] if e.get("f")})
        whole = [f for f in fs if all(len(re.split(r"[.\[]", e["f"])) == 1 for t in tags for e in effs_of[t] if e.get("f", "").startswith(f)) or (f == "timer" and {"TMON", "TMIN"} <= set(tags))]
        parts = []
        for f in fs:
            if f in whole:
                parts.append(f"{f}: self.{f}")
            elif f == "timer":
                sub = ", ".join(f"{e['f'].split('.')[1]}: self.{e['f']}" for t in tags for e in effs_of[t] if e["f"].startswith("timer."))
                parts.append(f"timer: TimerData {{ {sub}, ..__h.timer }}")
            else:
                es = [e for t in tags for e in effs_of[t] if e.get("f", "").startswith(f + "[")]
                if len(es) != 1:
                    return None
                parts.append(f"{f}: arr_upd(__h.{f}, {es[0]['f'][len(f) + 1:-1]}, self.{es[0]['f']})")
        g = f"{T} {{ {', '.join(parts)}, ..__h }}" if parts else "__h"
        inv = f"""        invariant_except_break {w}.wf(), {w}.open() ==> {w}.record_size <= u32::MAX, __w == {w}.done(), {T}_I(__b, __w, __g), __g == __h, {'; '.join(f"__h.{e['f']} is None" for t in tags for e in effs_of[t] if e.get('opt')).replace('; ', ', ')}
        invariant {T}_valid(*self),
        ensures {w}.wf(), {w}.open() ==> {w}.record_size <= u32::MAX, __w == {w}.done(), {T}_I(__b, __w, __g), __g == ({g}),
        decreases 0int,"""
        L = " ".join(f"lit_{t}();" for t in tags)
        L += "".join(f" reveal(pl_{k});" for k in sorted({e["k"] for t in tags for e in effs_of[t]} & {"v3u", "v3", "v2", "v4"}))
        return f"proof {{ __h = __g; }}", inv, f"broadcast use {{{BCW}}}; proof {{ {L} reveal_strlit(\"\"); }}"

    c.isolate = isolate
    state = {"last": None, "val": None}
    asserts = "".join((f"assert(__g.{n}@ =~= self.{n}@) by {{ broadcast use lemma_arr_upd_view; }} assert(__g.{n} =~= self.{n});\n" if ty.startswith("[") else "") + f"assert(__g.{n} == self.{n});\n" for n, ty in d["fields"]) + "assert(__g == *self);"
    special = {t: es[0]["k"] for t, es in d["tags"] if es[0]["k"] in ("dpnt", "font")}

    def rec(lit):
        return f'proof {{ __g = {T}_wr_{lit}(__b, __w, {w}.data@, __g{wr_vals(d, effs_of.get(lit, []))}); __w = {w}.data@; }}'

    def seqrec(steps):
        """steps: list of (cond or None, tag, payload)"""
        s = "proof {\n"
        for i, (cond, tag, pl) in enumerate(steps):
            one = f'let w1 = __w + enc_rec("{tag}"@, {pl}); __g = {T}_wr_{tag}(__b, __w, w1, __g{wr_vals(d, effs_of[tag])}); __w = w1;'
            s += (f"if {cond} {{ {one} }} else {{ assert(__w + Seq::<u8>::empty() =~= __w); }}\n" if cond else f"{{ {one} }}\n")
        return s + f"assert(__w =~= {w}.data@); __w = {w}.data@;\n}}"

    def after(n, meth, lit, full):
        m = meth.split("::")[-1]
        if m == "new_tag":
            state["last"] = lit
            return None
        if m in ("end_tag",):
            t = state["last"]
            if special.get(t) == "dpnt":
                return f"proof {{ __g = {T}_wr_dp(__b, __w, {w}.data@, __g, *({state['val']})); __w = {w}.data@; }}"
            return rec(t)
        if m == "end_tag_no_size":
            return f"proof {{ __g = {T}_wr_font(__b, __w, {w}.data@, __g, *({state['val']})); __w = {w}.data@; }}"
        if m == "close":
            return f"proof {{ {asserts} {T}_wr_end(__b, __w, {w}.data@, __g); }}" if "true" in full else None
        if m == "biff_write_tmon":
            return rec("TMON")
        if m == "biff_write_tmin":
            return rec("TMIN")
        if m == "write_shared_attributes":
            return f"proof {{ __g = {T}_wr_shared(__b, __w, {w}.data@, __g, *self); __w = {w}.data@; }}"
        if m == "biff_write":
            recv = full[:full.rfind(". biff_write")].replace(" ", "")
            if recv.startswith("self.timer"):
                return seqrec([(None, "TMON", f"pl_bool({recv}.is_enabled)"), (None, "TMIN", f"pl_i32({recv}.interval)")])
            state["val"] = recv
            return None
        if m.startswith("write_tagged") or m in ("write_marker_tag",):
            return rec(lit)
        return None

    c.after = after
    pushes = [(t, es[0]) for t, es in d["tags"] if es[0]["k"] == "push"]
    if pushes:
        f0 = pushes[0][1]["f"]
        both = " && ".join(f"__g.{e['f']} == Some(mk_vec(self.{e['f']}->0@.take(__i as int)))" for _, e in pushes)
        ups = ", ".join(f"{e['f']}: __g.{e['f']}" for _, e in pushes)
        c.loops = {0: f"""
    invariant {w}.wf(), {w}.open() ==> {w}.record_size <= u32::MAX, __w == {w}.done(), {T}_I(__b, __w, __g), {T}_valid(*self), {', '.join(f"self.{e['f']} is Some, *{v} == self.{e['f']}->0, self.{e['f']}->0@.len() == self.{f0}->0@.len()" for (_, e), v in zip(pushes, zipvars(f)))},
        __i == 0 ==> __g == __g0, {', '.join(f"__g0.{e['f']} is None" for _, e in pushes)}, __i > 0 ==> {both} && __g == ({T} {{ {ups}, ..__g0 }}),"""}
        c.before_loop = {0: "let ghost __g0 = __g;"}
        c.loop_start = {0: f"broadcast use {{{BCW}}}; proof {{ {' '.join(f'lit_{t}();' for t, _ in pushes)} reveal_strlit(\"\"); " + " ".join(f"axiom_mk_vec_shorter(self.{e['f']}->0@.take(__i as int), self.{e['f']}->0); assert(self.{e['f']}->0@.take(__i + 1) =~= self.{e['f']}->0@.take(__i as int).push(self.{e['f']}->0@[__i as int])); assert(__i == 0 ==> self.{e['f']}->0@.take(1) =~= seq![self.{e['f']}->0@[0]]);" for _, e in pushes) + " }\n"}
        c.after_loop = {0: "proof { broadcast use axiom_mk_vec; " + " ".join(f"assert(self.{e['f']}->0@.take(self.{e['f']}->0@.len() as int) =~= self.{e['f']}->0@); assert(mk_vec(self.{e['f']}->0@) == self.{e['f']}->0);" for _, e in pushes) + " }"}
    for tag, es in d["tags"]:
        if es[0]["k"] == "dpnt":
            fld = es[0]["f"]
            c.loops = {0: f"""iter __it
    invariant {w}.wf(), {w}.open() ==> {w}.record_size <= u32::MAX, __w == {w}.done(), {T}_I(__b, __w, __g), {T}_valid(*self), __it.seq().len() == self.{fld}@.len(), forall|i: int| #![auto] 0 <= i < self.{fld}@.len() ==> *__it.seq()[i] == self.{fld}@[i],
        __g == ({T} {{ {fld}: mk_vec(self.{fld}@.take(__it.index())), ..__g0 }}),"""}
            c.before_loop = {0: f"let ghost __g0 = __g; proof {{ assert(self.{fld}@.take(0) =~= __g.{fld}@); broadcast use axiom_mk_vec; assert(mk_vec(__g.{fld}@) == __g.{fld}); assert(__g == ({T} {{ {fld}: mk_vec(self.{fld}@.take(0)), ..__g0 }})); }}"}
            c.loop_start = {0: f"broadcast use {{{BCW}}}; proof {{ lit_{tag}(); reveal_strlit(\"\"); assert(self.{fld}@.take(__it.index() + 1) =~= self.{fld}@.take(__it.index()).push(self.{fld}@[__it.index()])); axiom_mk_vec_shorter(self.{fld}@.take(__it.index()), self.{fld}); }}\n"}
            c.after_loop = {0: f"proof {{ assert(self.{fld}@.take(self.{fld}@.len() as int) =~= self.{fld}@); broadcast use axiom_mk_vec; assert(mk_vec(self.{fld}@) == self.{fld}); }}"}


def fixups(m, ex):
    """called after extraction: fill in contract text that depends on parameter / local names"""
    fns = {}
    for f in ex.get("fns", []):
        fns.setdefault(f["key"], f)
        fns[f["full"]] = f
    for key, c in m.contracts.items():
        f = fns.get(c.source or key)
        if f is None:
            continue
        ps = [re.sub(r"^\s*(mut )?", "", p).split(":")[0].strip() for p in f["params"]]
        if getattr(c, "argspec", None):
            c.spec = c.argspec(ps)
        if getattr(c, "delegate", None):
            fix_delegate(c, ps, *c.delegate)
        if getattr(c, "shared", None):
            fix_shared(c, ps, c.shared)
        if getattr(c, "freeitem", None):
            fix_free(c, f, *c.freeitem)
        if getattr(c, "item", None):
            (fix_writer if c.item[1] == "w" else fix_reader)(c, f, c.item[0])
            if c.item[1] == "w" and schema_of(c.item[0]).get("fnwrite"):
                image_writer(c, ps)


def fix_delegate(c, ps, T, which):
    """the trait's method, which only hands over"""
    if which == "r":
        p = ps[0]
        start = f"{T}_parse({T}_start(), old({p}).rest())"
        c.spec = f"    requires old({p}).wf(), {start} is Some, old({p}).warn_remaining ==> p_rest({start}).len() == 0,\n    ensures r == p_val({start}), final({p}).rest() == p_rest({start}), final({p}).wf(), final({p}).cur().len() == 0, final({p}).data == old({p}).data, final({p}).warn_remaining == old({p}).warn_remaining,"
    else:
        w = ps[-1]
        c.spec = f"    requires old({w}).wf(), {T}_valid(*self), old({w}).open() ==> old({w}).record_size <= u32::MAX,\n    ensures final({w}).wf(), !final({w}).open(), {T}_written(old({w}).done(), final({w}).data@, *self),"


def image_writer(c, ps):
    """ImageData's writer is a function of its own, and its bitmap ends where the next record starts"""
    me, w = ps[0], ps[1]

    def ren(s):
        return re.sub(r"\bself\b", me, s) if isinstance(s, str) else s
    c.spec, c.start = ren(c.spec), ren(c.start)
    iso, aft = c.isolate, c.after

    def isolate(hooks):
        lits = [lit for m, lit in hooks if lit]
        f = {"BITS": "bits", "JPEG": "jpeg", "ALTV": "alpha_test_value"}.get(lits[0]) if len(lits) == 1 else None
        if f == "alpha_test_value":
            p, i, q = (ren(x) for x in iso(hooks))
            return p + f" proof {{ ImageData_I_J(__b, __w, __g); }}", i.replace("ImageData_I(", "ImageData_J(", 1), q
        if f is None:
            r = iso(hooks)
            return tuple(ren(x) for x in r) if r else None
        inv = f"""        invariant_except_break {w}.wf(), {w}.open() ==> {w}.record_size <= u32::MAX, __w == {w}.done(), ImageData_J(__b, __w, __g), __g == __h, __h.{f} is None
        invariant ImageData_valid(*{me}), __h.bits is None || {me}.jpeg is None,
        ensures {w}.wf(), {w}.open() ==> {w}.record_size <= u32::MAX, __w == {w}.done(), ImageData_J(__b, __w, __g), __g == (ImageData {{ {f}: {me}.{f}, ..__h }}),
        decreases 0int,"""
        return f"proof {{ __h = __g; ImageData_I_J(__b, __w, __g); }}", inv, f"broadcast use {{{BCW}}}; proof {{ lit_{lits[0]}(); reveal_strlit(\"\"); }}"

    def after(n, meth, lit, full):
        m = meth.split("::")[-1]
        if m == "write_tagged_data_without_size" and lit == "BITS":
            return f"proof {{ __g = ImageData_wr_BITS(__b, __w, {w}.data@, __g, {me}.bits->0); __w = {w}.data@; }}"
        if m == "write_tagged_data_without_size" and lit == "JPEG":
            k = re.search(r",\s*&?\s*(.*?)\s*,?\s*\)$", full)
            return f"proof {{ __g = ImageData_wr_JPEG(__b, __w, {w}.data@, __g, {me}.jpeg->0, ({k.group(1) if k else '__no_local'})@); __w = {w}.data@; }}"
        if lit == "ALTV" and m.startswith("write_tagged") and "size" not in m:
            return f"proof {{ __g = ImageData_wr_ALTV_b(__b, __w, {w}.data@, __g, {me}.alpha_test_value); __w = {w}.data@; }}"
        return ren(aft(n, meth, lit, full))

    c.isolate, c.after = isolate, after


# ------------------------------------------------------------------------------------------------ jobs
def lit_module(tags):
    m = Module("literals", None)
    m.extra = lits(tags)
    return m


def shared_module(T):
    """select.rs's blanket implementation, verified once per item type (with that type's accessors)"""
    m = Module("select_" + T, "src/vpx/gameitem/select.rs")
    m.broadcast = BC
    c = Contract(f"{T}::write_shared_attributes")
    c.source, c.impl_as, c.ghost = "T::write_shared_attributes", T, "writer"
    c.shared = T
    m.contracts[c.key] = c
    c = Contract(f"{T}::read_shared_attribute")
    c.source, c.impl_as = "T::read_shared_attribute", T
    c.shared = T
    m.contracts[c.key] = c
    m.extra = f"""
/// the stream after the shared attributes: LOCK always, the optional ones only when present
#[verifier::opaque] pub open spec fn {T}_sh_wr(w: Seq<u8>, x: {T}) -> Seq<u8> {{
    let w = w + enc_rec("LOCK"@, pl_bool(x.is_locked));
    let w = if x.editor_layer is Some {{ w + enc_rec("LAYR"@, b32(x.editor_layer->0)) }} else {{ w }};
    let w = if x.editor_layer_name is Some {{ w + enc_rec("LANR"@, pl_str(x.editor_layer_name->0@)) }} else {{ w }};
    let w = if x.part_group_name is Some {{ w + enc_rec("GRUP"@, pl_str(x.part_group_name->0@)) }} else {{ w }};
    if x.editor_layer_visibility is Some {{ w + enc_rec("LVIS"@, pl_bool(x.editor_layer_visibility->0)) }} else {{ w }}
}}
"""
    return m


def fix_shared(c, ps, T):
    L = " ".join(f"lit_{t[0]}();" for t in SHARED)
    if "write" in c.key:
        w = ps[1]
        c.broadcast = BCW
        c.start = f"proof {{ {L} reveal({T}_sh_wr); }}"
        c.spec = f"""    requires old({w}).wf(), {T}_valid(*self), old({w}).open() ==> old({w}).record_size <= u32::MAX,
    ensures final({w}).wf(), !final({w}).open(), final({w}).data@ == {T}_sh_wr(old({w}).done(), *self),"""
    else:
        t, r = ps[1], ps[2]
        c.start = f"proof {{ {L} reveal({T}_sh_wr); }}"
        c.spec = f"""    requires old({r}).wf(), tag_plain({t}@), sh_has(code_of({t}@)) ==> {T}_sh_step(*old(self), code_of({t}@), old({r}).cur()) is Some,
    ensures r == sh_has(code_of({t}@)), r ==> Some(*final(self)) == {T}_sh_step(*old(self), code_of({t}@), old({r}).cur()) && (exists|k: int| #[trigger] final({r}).took(old({r}), k)),
        !r ==> *final(self) == *old(self) && *final({r}) == *old({r}),"""


BASE = ["model", "biff", "color", "vertex2d", "vertex3d", "vertex4d", "font", "quantize", "select"]


def item_modules(T):
    d = schema_of(T)
    im = item_module(T)
    tags = set(im.tags) | {"TMON", "TMIN", "ENDB"}
    base = [vc.parse_vc(os.path.join(HERE, n + ".vc")) for n in BASE]
    enums = set(im.enums)
    deps = []
    if im.uses_dp:
        dp = item_module("DragPoint")
        tags |= set(dp.tags)
        enums |= set(dp.enums)
        deps.append(dp)
    lm = lit_module(tags)
    em = enum_items(sorted(im.enums))
    mods = base[:-1] + [lm] + base[-1:] + deps
    nbase = len(mods)
    mods += em
    if d["shared"]:
        mods.append(shared_module(T))
    mods.append(im)
    for m in mods:
        m.fixups = fixups
    return mods, nbase


def image_modules():
    """image.rs: the record of an image, the nested stream of an embedded file, and the bitmap whose end only its own blocks tell"""
    jm, im = item_module("JpegS"), item_module("ImageData")
    im.contracts["read"].subst.append((r"blocks_until\((&\s*\[[^\]]*\])\)", r"blocks_until({ let __h: &[u8] = \1; proof { assert(__h@ =~= altv_head()); } __h })"))
    im.noinline = ["read_jpeg", "write_jpg"]
    im.items = ["struct ImageData", "struct ImageDataBits"]
    base = [vc.parse_vc(os.path.join(HERE, n + ".vc")) for n in BASE]
    mods = base[:-1] + [lit_module(set(im.tags) | set(jm.tags) | {"TMON", "TMIN", "ENDB"})] + base[-1:]
    nb = len(mods)
    mods += [jm, im]
    for m in mods:
        m.fixups = fixups
    return mods, nb
