"""Contracts of gamedata.rs: the table's settings stream (153 record tags), generated from the committed schema.

    Gd_rec(b, q, c, p, ver)   what one record with tag code c and payload p does to the settings b, when the previous
                              record's tag code is q and the table's version is ver
    Gd_parse(b, q, d, ver)    the settings after all records of d (up to and including ENDB), and what follows
"""
import os, re
import vc
import items
from items import code, payload, read_val, read_cond, valid, ktype, BC, BCW
from vc import Contract, Module, HERE

FILE = "src/vpx/gamedata.rs"
SPECIAL = ("EFSS", "MATE", "PHMA", "MATR", "RPRB", "CCUS", "CODE")


def schema():
    return items.SCHEMA["data"]["GameData"]


def tags():
    return [t for t, _ in schema()["tags"]]


def plain():
    return [(t, es[0]) for t, es in schema()["tags"] if t not in SPECIAL]


def unit(t, e=None):
    """(condition, updates) of one record"""
    if e:
        v = read_val(e["k"])
        return read_cond(e["k"]), f"{e['f']}: " + (f"Some({v})" if e.get("opt") else v)
    if t == "EFSS":
        return "p.len() >= 4", f"bg_enable_fss: Some(u32_at(p, 0) != 0), is_10_8_0_beta1_to_beta4: b.is_10_8_0_beta1_to_beta4 || (ver == 1080 && q != {code('BOTM')} && q != {code('CLMO')})"
    if t == "MATE":
        return "saves_ok(p, b.materials_size as int)", "materials_old: mk_vec(saves_of(p, b.materials_size as int))"
    if t == "PHMA":
        return "physs_ok(p, b.materials_size as int)", "materials_physics_old: Some(mk_vec(physs_of(p, b.materials_size as int)))"
    if t == "MATR":
        s = "Material_parse(Material_start(), p)"
        return f"{s} is Some && p_rest({s}).len() == 0", f"materials: opt_push(b.materials, p_val({s}))"
    if t == "RPRB":
        s = "RenderProbe_parse(RenderProbe_start(), p)"
        return f"{s} is Some", f"render_probes: opt_push(b.render_probes, RenderProbeWithGarbage {{ render_probe: p_val({s}), trailing_data: mk_vec(p_rest({s})) }})"
    if t == "CCUS":
        return "p.len() >= 64", "custom_colors: colors_of(p)"


HELPERS = r"""
pub open spec fn opt_push<T>(o: Option<Vec<T>>, x: T) -> Option<Vec<T>> { Some(match o { Some(v) => mk_vec(v@.push(x)), None => mk_vec(seq![x]) }) }
// ---- the fixed-size material lists of old tables
pub open spec fn saves_ok(p: Seq<u8>, n: int) -> bool { p.len() >= 76 * n && forall|i: int| 0 <= i < n ==> (#[trigger] p.skip(76 * i)).take(32).contains(0u8) }
pub open spec fn saves_of(p: Seq<u8>, n: int) -> Seq<SaveMaterial> { Seq::new(n as nat, |i: int| save_of(p.skip(76 * i))) }
pub open spec fn saves_enc(s: Seq<SaveMaterial>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { saves_enc(s.drop_last()) + save_enc(s.last()) } }
pub open spec fn physs_ok(p: Seq<u8>, n: int) -> bool { p.len() >= 48 * n && forall|i: int| 0 <= i < n ==> (#[trigger] p.skip(48 * i)).take(32).contains(0u8) }
pub open spec fn physs_of(p: Seq<u8>, n: int) -> Seq<SavePhysicsMaterial> { Seq::new(n as nat, |i: int| phys_of(p.skip(48 * i))) }
pub open spec fn physs_enc(s: Seq<SavePhysicsMaterial>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { physs_enc(s.drop_last()) + phys_enc(s.last()) } }
pub proof fn lemma_saves(s: Seq<SaveMaterial>, r: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> name_fits((#[trigger] s[i]).name@),
    ensures saves_enc(s).len() == 76 * s.len(), forall|i: int| 0 <= i < s.len() ==> save_of(#[trigger] (saves_enc(s) + r).skip(76 * i)) == s[i] && (saves_enc(s) + r).skip(76 * i).take(32).contains(0u8),
    decreases s.len(),
{
    if s.len() > 0 {
        let a = s.drop_last(); let m = s.last(); let n = s.len() - 1;
        let e = save_enc(m);
        lemma_saves(a, e + r);
        lemma_save(m, r);
        assert(saves_enc(s) + r =~= saves_enc(a) + (e + r));
        let d = saves_enc(s) + r;
        assert(d.skip(76 * n) =~= e + r);
        assert forall|i: int| 0 <= i < s.len() implies save_of(#[trigger] d.skip(76 * i)) == s[i] && d.skip(76 * i).take(32).contains(0u8) by {
            if i < n { assert((saves_enc(a) + (e + r)).skip(76 * i) == d.skip(76 * i)); assert(a[i] == s[i]); }
        }
    }
}
pub proof fn lemma_physs(s: Seq<SavePhysicsMaterial>, r: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> name_fits((#[trigger] s[i]).name@),
    ensures physs_enc(s).len() == 48 * s.len(), forall|i: int| 0 <= i < s.len() ==> phys_of(#[trigger] (physs_enc(s) + r).skip(48 * i)) == s[i] && (physs_enc(s) + r).skip(48 * i).take(32).contains(0u8),
    decreases s.len(),
{
    if s.len() > 0 {
        let a = s.drop_last(); let m = s.last(); let n = s.len() - 1;
        let e = phys_enc(m);
        lemma_physs(a, e + r);
        lemma_phys(m, r);
        assert(physs_enc(s) + r =~= physs_enc(a) + (e + r));
        let d = physs_enc(s) + r;
        assert(d.skip(48 * n) =~= e + r);
        assert forall|i: int| 0 <= i < s.len() implies phys_of(#[trigger] d.skip(48 * i)) == s[i] && d.skip(48 * i).take(32).contains(0u8) by {
            if i < n { assert((physs_enc(a) + (e + r)).skip(48 * i) == d.skip(48 * i)); assert(a[i] == s[i]); }
        }
    }
}
pub proof fn lemma_saves_all(v: Vec<SaveMaterial>)
    requires forall|i: int| 0 <= i < v@.len() ==> name_fits((#[trigger] v@[i]).name@),
    ensures ({ let p = saves_enc(v@); let n = v@.len() as int; p.len() == 76 * n && saves_ok(p, n) && mk_vec(saves_of(p, n)) == v }),
{
    lemma_saves(v@, Seq::empty());
    let p = saves_enc(v@); let n = v@.len() as int;
    assert(p + Seq::<u8>::empty() =~= p);
    assert(saves_of(p, n) =~= v@);
    axiom_mk_vec(v);
}
pub proof fn lemma_physs_all(v: Vec<SavePhysicsMaterial>)
    requires forall|i: int| 0 <= i < v@.len() ==> name_fits((#[trigger] v@[i]).name@),
    ensures ({ let p = physs_enc(v@); let n = v@.len() as int; p.len() == 48 * n && physs_ok(p, n) && mk_vec(physs_of(p, n)) == v }),
{
    lemma_physs(v@, Seq::empty());
    let p = physs_enc(v@); let n = v@.len() as int;
    assert(p + Seq::<u8>::empty() =~= p);
    assert(physs_of(p, n) =~= v@);
    axiom_mk_vec(v);
}
// ---- the 16 custom colours
pub open spec fn colors_seq(p: Seq<u8>) -> Seq<Color> { Seq::new(16, |i: int| color_at(p, 4 * i)) }
pub open spec fn colors_of(p: Seq<u8>) -> [Color; 16] { choose|a: [Color; 16]| a@ == colors_seq(p) }
pub open spec fn colors_enc(s: Seq<Color>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { colors_enc(s.drop_last()) + b32(win_num(s.last()) as u32) } }
pub proof fn lemma_colors(s: Seq<Color>, r: Seq<u8>)
    ensures colors_enc(s).len() == 4 * s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] color_at(colors_enc(s) + r, 4 * i) == s[i],
    decreases s.len(),
{
    if s.len() > 0 {
        let a = s.drop_last(); let c = s.last(); let n = s.len() - 1;
        let e = b32(win_num(c) as u32);
        lemma_colors(a, e + r);
        lemma_win_bytes(c); lemma_b32(win_num(c) as u32);
        let d = colors_enc(s) + r;
        assert(d =~= colors_enc(a) + (e + r));
        assert(d.subrange(4 * n, 4 * n + 4) =~= e);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] color_at(d, 4 * i) == s[i] by {
            if i < n { assert(color_at(colors_enc(a) + (e + r), 4 * i) == a[i]); }
        }
    }
}
pub proof fn lemma_colors_all(a: [Color; 16])
    ensures colors_enc(a@).len() == 64, colors_of(colors_enc(a@)) == a,
{
    lemma_colors(a@, Seq::empty());
    let p = colors_enc(a@);
    assert(p + Seq::<u8>::empty() =~= p);
    assert(colors_seq(p) =~= a@);
    assert(a@ == colors_seq(p));
    let b = colors_of(p);
    assert(b@ == a@);
    assert(b =~= a);
}
pub proof fn lemma_colors_is(a: [Color; 16], p: Seq<u8>)
    requires a@ == colors_seq(p),
    ensures colors_of(p) == a,
{ let b = colors_of(p); assert(b@ == a@); assert(b =~= a); }
/// assumed: std's conversion of a vector into an array of its length
#[verifier::external_body] pub fn v_to_array<T, const N: usize>(v: Vec<T>) -> (r: [T; N]) requires v@.len() == N ensures r@ == v@ { unimplemented!() }
pub trait VGetOrInsert<T> { fn v_get_or_new(&mut self) -> (r: &mut Vec<T>); }
pub open spec fn vec_or_empty<T>(o: Option<Vec<T>>) -> Seq<T> { match o { Some(v) => v@, None => Seq::empty() } }
impl<T> VGetOrInsert<T> for Option<Vec<T>> {
    /// assumed: std's Option::get_or_insert_with(Vec::new)
    #[verifier::external_body] fn v_get_or_new(&mut self) -> (r: &mut Vec<T>) ensures r@ == vec_or_empty(*old(self)), *final(self) == Some(*final(r)) { unimplemented!() }
}
/// the script's text, with its encoding
pub open spec fn mk_swe(v: (bool, Seq<char>)) -> StringWithEncoding { StringWithEncoding { encoding: if v.0 { StringEncoding::Utf8 } else { StringEncoding::Latin1 }, string: mk_string(v.1) } }
pub proof fn lemma_mk_swe(s: StringWithEncoding) ensures mk_swe(swe_view(s)) == s { axiom_mk_string(s.string); }
pub open spec fn script_ok(s: StringWithEncoding) -> bool { swe_canon(swe_view(s)) && swe_bytes(swe_view(s)).len() <= 0x7fff_ffff && forall|i: int| 0 <= i < swe_bytes(swe_view(s)).len() ==> (#[trigger] swe_bytes(swe_view(s))[i]) != 0 }
pub open spec fn code_pl(s: StringWithEncoding) -> Seq<u8> { b32(swe_bytes(swe_view(s)).len() as u32) + swe_bytes(swe_view(s)) }
"""


def module():
    d = schema()
    m = Module("gamedata", FILE)
    m.broadcast = BC
    m.items = ["struct GameData"]
    ts = tags()
    x = HELPERS
    nones = [f"GameData_default().{f} is None" for f, ty in d["fields"] if ty.startswith("Option<")] + [f"GameData_default().{f}@.len() == 0" for f, ty in d["fields"] if ty.startswith("Vec<")] + ["!GameData_default().is_10_8_0_beta1_to_beta4"]
    x += f"pub uninterp spec fn GameData_default() -> GameData;\npub axiom fn GameData_default_facts() ensures {', '.join(nones)};\n"
    pd = dict(plain())
    sig = "b: GameData, q: int, p: Seq<u8>, ver: u32"
    for t in ts:
        if t == "CODE":
            continue
        cond, up = unit(t, pd.get(t))
        r = f"Some(GameData {{ {up}, ..b }})"
        if cond != "true":
            r = f"if {cond} {{ {r} }} else {{ None }}"
        x += f"#[verifier::opaque] pub open spec fn Gd_u_{t}({sig}) -> Option<GameData> {{ {r} }}\n"
    x += "/// effect of one framed record with tag code c and payload p, after a record with tag code q\n#[verifier::opaque] pub open spec fn Gd_rec(b: GameData, q: int, c: int, p: Seq<u8>, ver: u32) -> Option<GameData> {\n    "
    for t in ts:
        if t != "CODE":
            x += f"if c == {code(t)} {{ Gd_u_{t}(b, q, p, ver) }}\n    else "
    x += "{ Some(b) }\n}\n"
    for t in ts:
        if t != "CODE":
            x += f"pub proof fn Gd_rec_{t}({sig}) ensures Gd_rec(b, q, {code(t)}, p, ver) == Gd_u_{t}(b, q, p, ver) {{ reveal(Gd_rec); }}\n"
    x += f"pub proof fn Gd_rec_other(b: GameData, q: int, c: int, p: Seq<u8>, ver: u32) requires {', '.join(f'c != {code(t)}' for t in ts)} ensures Gd_rec(b, q, c, p, ver) == Some(b) {{ reveal(Gd_rec); }}\n"
    cc = code("CODE")
    x += f"""
#[verifier::opaque] pub open spec fn Gd_step(b: GameData, q: int, c: int, p: Seq<u8>, rest: Seq<u8>, ver: u32) -> Option<(GameData, Seq<u8>)> {{
    if c == {cc} {{
        if p.len() == 0 && rest.len() >= 4 && 4 + u32_at(rest, 0) <= rest.len() {{ let n = 4 + u32_at(rest, 0); Some((GameData {{ code: mk_swe(swe_of(until0(rest.subrange(4, n)))), ..b }}, rest.skip(n))) }} else {{ None }}
    }} else {{ match Gd_rec(b, q, c, p, ver) {{ Some(b2) => Some((b2, rest)), None => None }} }}
}}
#[verifier::opaque] pub open spec fn Gd_parse(b: GameData, q: int, d: Seq<u8>, ver: u32) -> Option<(GameData, Seq<u8>)> decreases d.len() {{
    if !rec_ok(d) {{ None }}
    else if rec_tag(d) == "ENDB"@ {{ if rec_payload(d).len() == 0 {{ Some((b, rec_rest(d))) }} else {{ None }} }}
    else {{ match Gd_step(b, q, code_of(rec_tag(d)), rec_payload(d), rec_rest(d), ver) {{
        Some((b2, r2)) => if 0 < r2.len() <= rec_rest(d).len() {{ Gd_parse(b2, code_of(rec_tag(d)), r2, ver) }} else {{ None }},
        None => None }} }}
}}
pub open spec fn Gd_start(d: Seq<u8>, ver: u32) -> Option<(GameData, Seq<u8>)> {{ Gd_parse(GameData_default(), code_of(""@), d, ver) }}
pub open spec fn Gd_written(w: Seq<u8>, x: GameData, ver: u32) -> bool {{ w.len() > 0 && forall|d: Seq<u8>| #[trigger] Gd_start(w + d, ver) == Some((x, d)) }}
#[verifier::opaque] pub open spec fn Gd_I(w: Seq<u8>, g: GameData, q: int, ver: u32) -> bool {{ forall|d: Seq<u8>| #[trigger] Gd_start(w + d, ver) == Gd_parse(g, q, d, ver) }}
pub proof fn Gd_I_init(ver: u32) ensures Gd_I(Seq::empty(), GameData_default(), code_of(""@), ver)
{{
    reveal(Gd_I);
    assert forall|d: Seq<u8>| #[trigger] Gd_start(Seq::<u8>::empty() + d, ver) == Gd_parse(GameData_default(), code_of(""@), d, ver) by {{ assert(Seq::<u8>::empty() + d =~= d); }}
}}
pub proof fn Gd_wr(w0: Seq<u8>, w1: Seq<u8>, g: GameData, q: int, ver: u32, t: Seq<char>, p: Seq<u8>) -> (g2: GameData)
    requires Gd_I(w0, g, q, ver), tag_ok(t), t != "ENDB"@, w1 == w0 + enc_rec(t, p), p.len() + 4 <= u32::MAX, Gd_rec(g, q, code_of(t), p, ver) is Some, code_of(t) != {cc},
    ensures g2 == Gd_rec(g, q, code_of(t), p, ver)->0, Gd_I(w1, g2, code_of(t), ver),
{{
    reveal_with_fuel(Gd_parse, 2); reveal(Gd_I); reveal(Gd_step);
    let c = code_of(t);
    let g2 = Gd_rec(g, q, c, p, ver)->0;
    assert forall|d: Seq<u8>| #[trigger] Gd_start(w1 + d, ver) == Gd_parse(g2, c, d, ver) by {{
        let e = enc_rec(t, p) + d;
        assert(w1 + d =~= w0 + e);
        lemma_enc_rec(t, p, d);
        assert(Gd_start(w0 + e, ver) == Gd_parse(g, q, e, ver));
        assert(Gd_step(g, q, c, p, d, ver) == Some((g2, d)));
        if d.len() == 0 {{ assert(Gd_parse(g2, c, d, ver) is None); }}
    }}
    g2
}}
pub proof fn Gd_wr_end(w0: Seq<u8>, w1: Seq<u8>, g: GameData, q: int, ver: u32)
    requires Gd_I(w0, g, q, ver), w1 == w0 + enc_rec("ENDB"@, Seq::<u8>::empty()),
    ensures Gd_written(w1, g, ver),
{{
    reveal(Gd_I); reveal(Gd_parse);
    lit_ENDB();
    assert forall|d: Seq<u8>| #[trigger] Gd_start(w1 + d, ver) == Some((g, d)) by {{
        let e = enc_rec("ENDB"@, Seq::<u8>::empty()) + d;
        assert(w1 + d =~= w0 + e);
        lemma_enc_rec("ENDB"@, Seq::<u8>::empty(), d);
        assert(Gd_start(w0 + e, ver) == Gd_parse(g, q, e, ver));
    }}
    lemma_enc_rec("ENDB"@, Seq::<u8>::empty(), Seq::<u8>::empty());
}}
pub proof fn Gd_wr_CODE(w0: Seq<u8>, w1: Seq<u8>, g: GameData, q: int, ver: u32, v0: StringWithEncoding) -> (g2: GameData)
    requires Gd_I(w0, g, q, ver), script_ok(v0), w1 == w0 + enc_rec_nosize("CODE"@, code_pl(v0)),
    ensures g2 == (GameData {{ code: v0, ..g }}), Gd_I(w1, g2, {cc}, ver),
{{
    reveal_with_fuel(Gd_parse, 2); reveal(Gd_I); reveal(Gd_step);
    lit_CODE(); lit_ENDB();
    let g2 = GameData {{ code: v0, ..g }};
    let s = swe_bytes(swe_view(v0));
    let pl = code_pl(v0);
    let h = enc_rec_nosize("CODE"@, pl);
    assert forall|d: Seq<u8>| #[trigger] Gd_start(w1 + d, ver) == Gd_parse(g2, {cc}, d, ver) by {{
        let e = h + d;
        assert(w1 + d =~= w0 + e);
        lemma_enc_rec_nosize("CODE"@, pl, d);
        let rest = pl + d;
        lemma_b32(s.len() as u32);
        assert(rest.subrange(0, 4) =~= b32(s.len() as u32));
        assert(rest.subrange(4, 4 + s.len() as int) =~= s);
        assert(rest.skip(4 + s.len() as int) =~= d);
        lemma_until0(s, s.len() as int);
        assert(s.take(s.len() as int) =~= s);
        lemma_swe(swe_view(v0)); lemma_mk_swe(v0);
        assert(Gd_start(w0 + e, ver) == Gd_parse(g, q, e, ver));
        assert(Gd_step(g, q, {cc}, rec_payload(e), rest, ver) == Some((g2, d)));
        if d.len() == 0 {{ assert(Gd_parse(g2, {cc}, d, ver) is None); }}
    }}
    g2
}}
"""
    # ---- one lemma per written record
    hd = "w0: Seq<u8>, w1: Seq<u8>, g: GameData, q: int, ver: u32"
    for t in ts:
        if t == "CODE":
            continue
        e, req, pre, pr = pd.get(t), [], "", "p"
        if e:
            k = e["k"]
            ps, pl = f"v0: {ktype(k)}", payload(k, "v0")
            if valid(k, "v0"):
                req.append(valid(k, "v0"))
            up = f"{e['f']}: " + ("Some(v0)" if e.get("opt") else "v0")
            pre = f"broadcast use {{{BC}}};" + (f" reveal(pl_{k});" if k == "color" else "")
        elif t == "EFSS":
            ps, pl = "v0: bool", "pl_bool(v0)"
            up = f"bg_enable_fss: Some(v0), is_10_8_0_beta1_to_beta4: g.is_10_8_0_beta1_to_beta4 || (ver == 1080 && q != {code('BOTM')} && q != {code('CLMO')})"
            pre = f"broadcast use {{{BC}}};"
        elif t in ("MATE", "PHMA"):
            s, T, n = ("saves", "SaveMaterial", 76) if t == "MATE" else ("physs", "SavePhysicsMaterial", 48)
            ps, pl = f"v0: Vec<{T}>", f"{s}_enc(v0@)"
            req += ["forall|i: int| 0 <= i < v0@.len() ==> name_fits((#[trigger] v0@[i]).name@)", "g.materials_size == v0@.len()", "v0@.len() <= 0xff_ffff"]
            up = "materials_old: v0" if t == "MATE" else "materials_physics_old: Some(v0)"
            pre = f"lemma_{s}_all(v0);"
        elif t == "MATR":
            ps, pl = "v0: Material, p0: Seq<u8>", "p0"
            req += ["Material_written(Seq::empty(), p0, v0)", "p0.len() <= 0x7fff_ffff"]
            up = "materials: opt_push(g.materials, v0)"
            pre = "assert(p0.skip(0) =~= p0); assert(p0 + Seq::<u8>::empty() =~= p0); assert(Material_parse(Material_start(), p0.skip(0) + Seq::<u8>::empty()) == Some((v0, Seq::<u8>::empty())));"
        elif t == "RPRB":
            ps, pl = "v0: RenderProbeWithGarbage, p0: Seq<u8>", "p0"
            req += ["exists|d: Seq<u8>| #[trigger] RenderProbe_written(Seq::empty(), d, v0.render_probe) && p0 == d + v0.trailing_data@", "p0.len() <= 0x7fff_ffff"]
            up = "render_probes: opt_push(g.render_probes, v0)"
            pre = "let e0 = choose|d: Seq<u8>| #[trigger] RenderProbe_written(Seq::empty(), d, v0.render_probe) && p0 == d + v0.trailing_data@; assert(e0.skip(0) =~= e0); assert(RenderProbe_parse(RenderProbe_start(), e0.skip(0) + v0.trailing_data@) == Some((v0.render_probe, v0.trailing_data@))); axiom_mk_vec(v0.trailing_data);"
        elif t == "CCUS":
            ps, pl = "v0: [Color; 16]", "colors_enc(v0@)"
            up = "custom_colors: v0"
            pre = "lemma_colors_all(v0);"
        x += f"""pub proof fn Gd_wr_{t}({hd}, {ps}) -> (g2: GameData)
    requires Gd_I(w0, g, q, ver), w1 == w0 + enc_rec("{t}"@, {pl}){''.join(', ' + r for r in req)},
    ensures g2 == (GameData {{ {up}, ..g }}), Gd_I(w1, g2, {code(t)}, ver),
{{
    {pre}
    lit_{t}(); lit_ENDB();
    let p = {pl};
    Gd_rec_{t}(g, q, p, ver); reveal(Gd_u_{t});
    Gd_wr(w0, w1, g, q, ver, "{t}"@, p)
}}
"""
    # ---- values the format can carry
    vs = []
    for t, e in plain():
        v = valid(e["k"], f"x.{e['f']}" + ("->0" if e.get("opt") else ""))
        if v:
            vs.append(f"(x.{e['f']} is Some ==> {v})" if e.get("opt") else v)
    rest = ["x.is_10_8_0_beta1_to_beta4 ==> ver == 1080 && x.bg_enable_fss is Some",
           "x.materials_old@.len() == x.materials_size", "x.materials_size <= 0xff_ffff",
           "forall|i: int| 0 <= i < x.materials_old@.len() ==> name_fits((#[trigger] x.materials_old@[i]).name@)",
           "x.materials_physics_old is Some ==> x.materials_physics_old->0@.len() == x.materials_size && forall|i: int| 0 <= i < x.materials_physics_old->0@.len() ==> name_fits((#[trigger] x.materials_physics_old->0@[i]).name@)",
           "x.materials is Some ==> x.materials->0@.len() > 0 && forall|i: int| 0 <= i < x.materials->0@.len() ==> Material_fits(#[trigger] x.materials->0@[i])",
           "x.render_probes is Some ==> x.render_probes->0@.len() > 0 && forall|i: int| 0 <= i < x.render_probes->0@.len() ==> Probe_fits(#[trigger] x.render_probes->0@[i])",
           "script_ok(x.code)"]
    vs += rest
    x += f"""/// nested streams of at most 2 GB
pub open spec fn Material_fits(m: Material) -> bool {{ Material_valid(m) && forall|w: Seq<u8>| #[trigger] Material_written(Seq::empty(), w, m) ==> w.len() <= 0x7fff_ffff }}
pub open spec fn Probe_fits(m: RenderProbeWithGarbage) -> bool {{ RenderProbe_valid(m.render_probe) && m.trailing_data@.len() <= 0x3fff_ffff && forall|w: Seq<u8>| #[trigger] RenderProbe_written(Seq::empty(), w, m.render_probe) ==> w.len() <= 0x3fff_ffff }}
#[verifier::opaque] pub open spec fn Gd_valid(x: GameData, ver: u32) -> bool {{ {' && '.join(f'({v})' for v in vs)} }}
pub proof fn Gd_valid_rest(x: GameData, ver: u32) requires Gd_valid(x, ver) ensures {' && '.join(f'({v})' for v in rest)} {{ reveal(Gd_valid); }}
/// settings written for a version and read back for that version are the same settings: composed from the two contracts only
pub fn gamedata_roundtrip(x: &GameData, version: &Version) -> (r: GameData)
    requires Gd_valid(*x, version.0),
    ensures r == *x,
{{
    let v = write_all_gamedata_records(x, version);
    proof {{ let d = v@; assert(d + Seq::<u8>::empty() =~= d); assert(Gd_start(d + Seq::<u8>::empty(), version.0) == Some((*x, Seq::<u8>::empty()))); }}
    read_all_gamedata_records(v.as_slice(), version)
}}
"""
    m.extra = x
    c = Contract("GameData::default")
    c.external = True
    c.spec = "    ensures r == GameData_default(),"
    m.contracts[c.key] = c
    c = Contract("GameData::default@facts")
    c.source = "GameData::default"
    c.free = ["GameData_default_check", "GameData"]
    c.spec = f"    ensures {', '.join(n.replace('GameData_default()', 'r') for n in nones)},"
    c.transform = vc.default_skeleton("GameData", {f: ty.split("<")[0] for f, ty in d["fields"] if ty.startswith(("Option<", "Vec<")) or f == "is_10_8_0_beta1_to_beta4"})
    m.contracts[c.key] = c
    c = Contract("read_colors")
    c.gd = "rc"
    m.contracts[c.key] = c
    c = Contract("write_colors")
    c.gd = "wc"
    m.contracts[c.key] = c
    c = Contract("read_all_gamedata_records")
    c.gd = "r"
    m.contracts[c.key] = c
    c = Contract("write_all_gamedata_records")
    c.gd = "w"
    c.ghost = items.local_of(FILE, c.key, r"let mut (\w+)(?::[^=]*)? = BiffWriter::new", "writer")
    m.contracts[c.key] = c
    m.fixups = fixups
    return m


def fixups(m, ex):
    fns = {f["key"]: f for f in ex.get("fns", [])}
    for key, c in m.contracts.items():
        f = fns.get(c.source or key)
        if f is not None and getattr(c, "gd", None):
            {"r": fix_reader, "w": fix_writer, "rc": fix_rc, "wc": fix_wc}[c.gd](c, f)
            if c.gd == "w":
                m.extra0 = getattr(m, "extra0", m.extra)
                m.extra = m.extra0 + step_lemmas(c, f["body"])


def params(f):
    return [re.sub(r"^\s*(mut )?", "", p).split(":")[0].strip() for p in f["params"]]


def grab(pat, body, default="__no_local"):
    m = re.search(pat, body)
    return m.group(1) if m else default


def fix_rc(c, f):
    p = params(f)[0]
    v = grab(r"let mut (\w+)(?:: [^=]+)? = Vec", f["body"])
    b = grab(r"let mut (\w+) = BytesMut", f["body"])
    c.spec = f"    requires {p}@.len() >= 64,\n    ensures r@ == colors_seq({p}@),"
    c.broadcast = "vpin_base, vpin_bytes"
    c.subst = [(r"<\[Color; 16\]>::try_from\((\w+)\)\s*\.unwrap\(\)", r"v_to_array(\1)"), (r"let mut %s = Vec::new" % v, f"let mut {v}: Vec<Color> = Vec::new")]
    c.loops = {0: f"""iter __it
    invariant {p}@.len() >= 64, {b}@ == {p}@.skip(4 * __it.index()), {v}@.len() == __it.index(), forall|i: int| 0 <= i < __it.index() ==> #[trigger] {v}@[i] == color_at({p}@, 4 * i),"""}
    c.before_loop = {0: f"proof {{ assert({p}@.skip(0) =~= {p}@); }}"}
    c.loop_start = {0: f"broadcast use {{vpin_base, vpin_bytes}};"}
    c.after_loop = {0: f"proof {{ assert({v}@ =~= colors_seq({p}@)); }}"}


def fix_wc(c, f):
    p = params(f)[0]
    b = grab(r"let mut (\w+) = BytesMut", f["body"])
    c.spec = f"    ensures r@ == colors_enc({p}@),"
    c.broadcast = "vpin_base, vpin_bytes"
    c.subst = [(r"in %s \{" % p, f"in {p}.as_slice() {{")]
    c.loops = {0: f"""iter __it
    invariant __it.seq().len() == {p}@.len(), forall|i: int| 0 <= i < {p}@.len() ==> *(#[trigger] __it.seq()[i]) == {p}@[i], {b}@ == colors_enc({p}@.take(__it.index())),"""}
    c.before_loop = {0: f"proof {{ assert({p}@.take(0) =~= Seq::empty()); }}"}
    c.loop_start = {0: f"broadcast use {{vpin_base, vpin_bytes}}; proof {{ let s = {p}@.take(__it.index() + 1); assert(s.drop_last() =~= {p}@.take(__it.index())); assert(s.last() == {p}@[__it.index()]); }}"}
    c.after_loop = {0: f"proof {{ assert({p}@.take({p}@.len() as int) =~= {p}@); }}"}


def fix_reader(c, f):
    p, vn = (params(f) + ["__p", "__v"])[:2]
    body = f["body"]
    var = grab(r"let mut (\w+)(?:: \w+)? = GameData::default\(\)", body)
    rd = grab(r"(\w+)\.next\(", body, "reader")
    pv = grab(r"let mut (\w+)(?:: String)? = (?:String::new\(\)|\"\"\.(?:to_string|to_owned|v_to_string)\(\)|String::from\(\"\"\)|String::default\(\))", body)
    ver = f"{vn}.0"
    start = f"Gd_start({p}@, {ver})"
    c.spec = f"    requires {start} is Some, p_rest({start}).len() == 0,\n    ensures r == p_val({start}),"
    c.broadcast = "vpin_base, vpin_str, vpin_seq, " + BC
    c.start = f"let ghost __rest0 = {p}@; proof {{ GameData_default_facts(); reveal_strlit(\"\"); assert(tag_plain(\"\"@)) by {{ reveal(tag_plain); }} }}"
    inv = f"{rd}.wf(), Gd_start(__rest0, {ver}) is Some, {rd}.warn_remaining, {rd}.data@ == __rest0, p_rest(Gd_start(__rest0, {ver})).len() == 0, tag_plain({pv}@),"
    c.before_loop = {0: f"proof {{ assert({rd}.rest() =~= {p}@); assert({pv}@ =~= \"\"@); }}"}
    c.loops = {0: f"""    invariant_except_break Gd_parse({var}, code_of({pv}@), {rd}.rest(), {ver}) == Gd_start(__rest0, {ver}),
    invariant {inv}
    ensures Some(({var}, {rd}.rest())) == Gd_start(__rest0, {ver}),
    decreases {rd}.rest().len(),"""}
    c.loop_start = {0: f"""broadcast use {{{BC}}};
let ghost __b = {var}; let ghost __q = code_of({pv}@); let ghost __r = {rd}.rest(); let ghost __c = code_of(rec_tag(__r)); let ghost __p = rec_payload(__r);
proof {{ reveal(Gd_parse); lit_ENDB(); assert(rec_ok(__r)); lemma_rec_tag_plain(__r);
    assert(rec_tag(__r) != "ENDB"@ ==> Gd_step(__b, __q, __c, __p, rec_rest(__r), {ver}) is Some && rec_rest(__r).len() > 0);
    assert({rd}.warn_remaining && rec_tag(__r) == "ENDB"@ ==> rec_rest(__r).len() == 0 && rec_payload(__r).len() == 0); }}"""}
    # the two lists of old materials
    for n, (of, sz, T) in {1: ("save", 76, "SaveMaterial"), 2: ("phys", 48, "SavePhysicsMaterial")}.items():
        seg = re.search(r"__loop!\(\s*%d(?:usize)?\s*\);\s*let (\w+) = %s::read\(&mut (\w+)\);\s*(\w+)\.push\(\1\);" % (n, T), body)
        buf, vec = (seg.group(2), seg.group(3)) if seg else ("__no_local", "__no_local")
        c.loops[n] = f"""iter __it
    invariant {var} == __b, {of}s_ok(__p, __b.materials_size as int), {buf}@ == __p.skip({sz} * __it.index()), {vec}@.len() == __it.index(), forall|i: int| 0 <= i < __it.index() ==> #[trigger] {vec}@[i] == {of}_of(__p.skip({sz} * i)), __it.seq().len() == __b.materials_size,"""
        c.before_loop[n] = f"proof {{ assert(__p.skip(0) =~= __p); }}"
        c.loop_start[n] = f"broadcast use {{vpin_base, vpin_bytes}}; proof {{ assert(__p.skip({sz} * __it.index()).take(32).contains(0u8)); assert(__p.len() >= {sz} * __b.materials_size); assert(__p.len() - {sz} * __it.index() >= {sz}) by (nonlinear_arith) requires __p.len() >= {sz} * __b.materials_size, __it.index() < __b.materials_size; assert(__p.skip({sz} * __it.index()).skip({sz}) =~= __p.skip({sz} * (__it.index() + 1))); }}"
        c.after_loop = c.after_loop or {}
        c.after_loop[n] = f"proof {{ assert({vec}@ =~= {of}s_of(__p, __b.materials_size as int)); assert({vec} == mk_vec({vec}@)); }}"
    c.subst = [(r"\.get_or_insert_with\(\s*Vec::new\s*,?\s*\)", ".v_get_or_new()")]
    ts = tags()

    def arms(tv, lits, lit):
        which = f'{tv}@ == "{lit}"@,' if lit is not None else " ".join(f'{tv}@ != "{t}"@,' for t in lits)
        i = f"""    invariant_except_break {var} == __b, {rd}.cur() == __p, {rd}.rest() == rec_rest(__r), {rd}.data@ == __rest0, __q == code_of({pv}@),
    invariant {rd}.wf(), rec_rest(__r).len() > 0, Gd_step(__b, __q, __c, __p, rec_rest(__r), {ver}) is Some, __c == code_of({tv}@), tag_plain({tv}@), tag_plain({pv}@), {which} {rd}.warn_remaining, {rd}.data@ == __rest0,
    ensures Gd_step(__b, __q, __c, __p, rec_rest(__r), {ver}) == Some(({var}, {rd}.rest())),
    decreases 0int,"""
        s = f"broadcast use {{{BC}, vpin_seq}}; proof {{ reveal(Gd_step); "
        end = ""
        if lit in ts and lit != "CODE":
            s += f"lit_{lit}(); Gd_rec_{lit}(__b, __q, __p, {ver}); reveal(Gd_u_{lit}); "
        elif lit == "CODE":
            s += "lit_CODE(); "
            end = f"proof {{ lemma_mk_swe({var}.code); }}\n"
        else:
            s += "".join(f'if __c == {code(t)} {{ lit_{t}(); lemma_code_inj({tv}@, "{t}"@); }} ' for t in (lits if lit is None else ts) if t in ts)
            s += f"Gd_rec_other(__b, __q, __c, __p, {ver}); "
        if lit == "EFSS":
            s += f'lit_BOTM(); lit_CLMO(); if __q == {code("BOTM")} {{ lemma_code_inj({pv}@, "BOTM"@); }} if __q == {code("CLMO")} {{ lemma_code_inj({pv}@, "CLMO"@); }} '
        if lit == "SECB":
            end = f"proof {{ assert({var}.protection_data->0@ =~= __p); assert({var}.protection_data->0 == mk_vec(__p)); }}\n"
        if lit == "CCUS":
            end = f"proof {{ lemma_colors_is({var}.custom_colors, __p); }}\n"
        if lit in ("MATR", "RPRB"):
            fld = "materials" if lit == "MATR" else "render_probes"
            v = "p_val(Material_parse(Material_start(), __p))" if lit == "MATR" else "(RenderProbeWithGarbage { render_probe: p_val(RenderProbe_parse(RenderProbe_start(), __p)), trailing_data: mk_vec(p_rest(RenderProbe_parse(RenderProbe_start(), __p))) })"
            fx = f"{var}.{fld}->0"
            end = f"proof {{ let v = {v}; {'assert(%s@.last() == v);' % fx} assert({fx}@ =~= (match __b.{fld} {{ Some(o) => o@.push(v), None => seq![v] }})); assert({fx} == mk_vec({fx}@)); }}\n"
        return i, s + "}\n", end

    c.arms = arms


def fix_writer(c, f):
    gp, vn = (params(f) + ["__g", "__v"])[:2]
    body = f["body"]
    w = grab(r"let mut (\w+)(?:: BiffWriter)? = BiffWriter::new", body, "writer")
    c.ghost = w
    c.ret = "out"
    ver, me = f"{vn}.0", f"(*{gp})"
    d = schema()
    ts = tags()
    pd = dict(plain())
    c.spec = f"    requires Gd_valid(*{gp}, {ver}),\n    ensures Gd_written(out@, *{gp}, {ver}),"
    c.broadcast = BCW + ", vpin_seq"
    c.start = f"""let ghost mut __g: GameData = GameData_default(); let ghost mut __q: int = code_of(""@); let ghost mut __w = Seq::<u8>::empty(); let ghost mut __h: GameData = __g; let ghost mut __hq: int = __q;
proof {{ lit_ENDB(); Gd_I_init({ver}); Gd_none_init(); reveal_strlit(""); }}"""
    W = f"{w}.wf(), {w}.open() ==> {w}.record_size <= u32::MAX, __w == {w}.done(), Gd_I(__w, __g, __q, {ver})"

    def isolate(hooks):
        got = [l for m, l in hooks if (m.startswith("write_") or m == "new_tag") and l]
        if len(got) != 1 or got[0] not in pd:
            return None
        t = got[0]
        e = pd[t]
        opt = e.get("opt")
        q = f"(if {me}.{e['f']} is Some {{ {code(t)} }} else {{ __hq }})" if opt else code(t)
        inv = f"""        invariant_except_break {W}, __g == __h, __q == __hq, {f'__h.{e["f"]} is None' if opt else 'true'},
        invariant Gd_valid(*{gp}, {ver}),
        ensures {W}, __g == (GameData {{ {e['f']}: {me}.{e['f']}, ..__h }}), __q == {q},
        decreases 0int,"""
        v = valid(e["k"], "x")
        s = f"proof {{ lit_{t}(); reveal_strlit(\"\"); " + (f"reveal(pl_{e['k']}); " if e["k"] in ("color",) else "") + ("reveal(Gd_valid); " if v else "") + "}"
        return "proof { __h = __g; __hq = __q; }", inv, f"broadcast use {{{BCW}}}; {s}"

    c.isolate = isolate
    c.chunk_size = 12
    steps = []      # one entry per run of isolated statements or other record-writing statement: (kind, tags)
    c.steps = steps

    def fields(st):
        fs = []
        for t in st[1]:
            fs += [pd[t]["f"]] if t in pd else {"EFSS": ["bg_enable_fss", "is_10_8_0_beta1_to_beta4"], "MATE": ["materials_old"], "PHMA": ["materials_physics_old"], "MATR": ["materials"], "RPRB": ["render_probes"], "CCUS": ["custom_colors"], "CODE": ["code"]}[t]
        return fs

    c.step_fields = fields

    def chunk(runs):
        steps.append(("run", [l for h in runs for m, l in h if (m.startswith("write_") or m == "new_tag") and l]))
        return len(steps) - 1

    def outline(j, text):
        kind = steps[j][0]
        text = re.sub(r"&mut %s\b" % w, w, text)
        ens, req, end, pre, post = "", "", "", "", ""
        if kind == "run":
            q = "__kq"
            for t in steps[j][1]:
                q = f"(if {me}.{pd[t]['f']} is Some {{ {code(t)}int }} else {{ {q} }})" if pd[t].get("opt") else f"{code(t)}int"
            ens = f" __out.1@ == {q},"
            start = f"reveal(Gd_mix_{j}); reveal(Gd_none_{j}); reveal(Gd_none_{j + 1});"
        else:
            if kind in ("MATE", "PHMA"):
                i = next((k for k, st in enumerate(steps) if "MASI" in st[1]), j)
                pre = f"proof {{ assert(__g.materials_size == {me}.materials_size) by {{ {' '.join(f'reveal(Gd_mix_{k});' for k in range(i, j))} }} }}"
                req = f" __k.materials_size == {me}.materials_size,"
            start = f"lit_{kind}(); Gd_valid_rest({me}, {ver}); reveal(Gd_mix_{j}); "
            if kind in ("MATR", "RPRB"):
                start += f"assert(__g.{fields(steps[j])[0]} is None) by {{ reveal(Gd_none_{j}); }}"
            if kind in ("PHMA",):
                start += f"assert(__g.{fields(steps[j])[0]} is None) by {{ reveal(Gd_none_{j}); }}"
            if kind == "CCUS":
                start += f"lemma_colors_all({me}.custom_colors);"
            end = f"proof {{ {'assert(%s.custom_colors =~= __g.custom_colors);' % me if kind == 'CCUS' else ''} assert(__g == Gd_mix_{j}(__k, {me}, {ver})); Gd_keep_{j}(__k, {me}, {ver}); }}"
        qv = ""
        if kind == "EFSS":
            second = any(st[0] == "EFSS" for st in steps[:j])
            qv = f" __kq {'!=' if second else '=='} {code('BOTM')} && __kq != {code('CLMO')}," if second else f" (__kq == {code('BOTM')} || __kq == {code('CLMO')}),"
        fn = f"""/// statements of write_all_gamedata_records, moved here by the extraction
#[verifier::spinoff_prover]
pub fn Gd_part_{j}({w}: &mut BiffWriter, {gp}: &GameData, {vn}: &Version, Ghost(__k): Ghost<GameData>, Ghost(__kq): Ghost<int>) -> (__out: (Ghost<GameData>, Ghost<int>))
    requires old({w}).wf(), old({w}).open() ==> old({w}).record_size <= u32::MAX, Gd_I(old({w}).done(), __k, __kq, {ver}), Gd_none_{j}(__k), Gd_valid({me}, {ver}),{req}{qv}
    ensures final({w}).wf(), final({w}).open() ==> final({w}).record_size <= u32::MAX, Gd_I(final({w}).done(), __out.0@, __out.1@, {ver}), __out.0@ == Gd_mix_{j}(__k, {me}, {ver}), Gd_none_{j + 1}(__out.0@),{ens}
{{
broadcast use {{{BCW}, vpin_seq}};
let ghost mut __g = __k; let ghost mut __q = __kq; let ghost mut __w = {w}.done(); let ghost mut __h = __g; let ghost mut __hq = __q;
proof {{ {start} }}
{text}
{end}
(Ghost(__g), Ghost(__q))
}}"""
        return fn, f"""    let ghost __s{j} = __g; {pre}
    let __r{j} = Gd_part_{j}(&mut {w}, {gp}, {vn}, Ghost(__g), Ghost(__q));
    proof {{ __g = __r{j}.0@; __q = __r{j}.1@; __w = {w}.done(); }}"""

    c.outline = outline

    def around(hooks):
        tg = [l for m, l in hooks if (m.startswith("write_") or m == "new_tag") and l]
        if len(tg) != 1 or tg[0] not in ts:
            return None
        steps.append((tg[0], tg))
        return len(steps) - 1

    c.keeps = lambda stmt: re.search(r"\b%s\b" % w, stmt) is not None
    c.chunk, c.around = chunk, around
    c.subst = [(r"(\w+::\w*write\w*\([^()]*,\s*)%s\)" % w, r"\1&mut %s)" % w)]
    asserts = "".join((f"assert(__g.{n} =~= {me}.{n});\n" if ty.startswith("[") else "") + f"assert(__g.{n} == {me}.{n});\n" for n, ty in d["fields"]) + f"assert(__g == {me});"
    state = {"last": None}

    def after(n, meth, lit, full):
        k = meth.split("::")[-1]
        if k == "new_tag":
            state["last"] = lit
            return None
        if k in ("end_tag", "end_tag_no_size"):
            lit = state["last"]
        elif k == "close":
            return f"proof {{ Gd_fin({', '.join('__s%d' % i for i in range(len(steps)))}, __g, {me}, {ver}); Gd_wr_end(__w, {w}.data@, __g, __q, {ver}); }}" if "true" in full else None
        if not (k.startswith("write_tagged") or k.startswith("end_tag")) or lit not in ts:
            return None
        args = ""
        if lit in pd:
            e = pd[lit]
            args = f", {me}.{e['f']}" + ("->0" if e.get("opt") else "")
        elif lit == "EFSS":
            args = f", {me}.bg_enable_fss->0"
        elif lit == "MATE":
            args = f", {me}.materials_old"
        elif lit == "PHMA":
            args = f", {me}.materials_physics_old->0"
        elif lit in ("MATR", "RPRB"):
            a = grab(r"(\w+)\s*\.\s*get_data", full)
            args = f", {me}.{'materials' if lit == 'MATR' else 'render_probes'}->0@[__i], {a}.data@"
        elif lit == "CCUS":
            args = f", {me}.custom_colors"
        elif lit == "CODE":
            args = f", {me}.code"
        return f"proof {{ lit_{lit}(); __g = Gd_wr_{lit}(__w, {w}.data@, __g, __q, {ver}{args}); __q = {code(lit)}; __w = {w}.data@; }}"

    c.after = after
    c.loops, c.before_loop, c.loop_start, c.after_loop = {}, {}, {}, {}
    # loops, in the order of the text: MATE, PHMA, MATR, RPRB; each is recognised by what follows it
    heads = [(int(k.group(1)), k.start()) for k in re.finditer(r"__loop!\(\s*(\d+)", body)]
    for n, pos in heads:
        k = re.compile(r'"(MATE|PHMA|MATR|RPRB)"').search(body, pos)
        t = k.group(1) if k else None
        if t in ("MATE", "PHMA"):
            fld = f"{me}.materials_old@" if t == "MATE" else f"{me}.materials_physics_old->0@"
            enc = "saves_enc" if t == "MATE" else "physs_enc"
            one = "save_enc" if t == "MATE" else "phys_enc"
            b = grab(r"\.write\(&mut (\w+)\)", body[pos:])
            c.loops[n] = f"""iter __it
    invariant Gd_valid(*{gp}, {ver}), {f'{me}.materials_physics_old is Some, ' if t == 'PHMA' else ''}__it.seq().len() == {fld}.len(), forall|i: int| 0 <= i < {fld}.len() ==> *(#[trigger] __it.seq()[i]) == {fld}[i], {b}@ == {enc}({fld}.take(__it.index())),"""
            c.before_loop[n] = f"proof {{ assert({fld}.take(0) =~= Seq::empty()); }}"
            c.loop_start[n] = f"broadcast use {{vpin_base, vpin_bytes}}; proof {{ Gd_valid_rest({me}, {ver}); let s = {fld}.take(__it.index() + 1); assert(s.drop_last() =~= {fld}.take(__it.index())); assert(s.last() == {fld}[__it.index()]); assert(name_fits({fld}[__it.index()].name@)); }}"
            v = f"{me}.materials_old" if t == "MATE" else f"{me}.materials_physics_old->0"
            c.after_loop[n] = f"proof {{ Gd_valid_rest({me}, {ver}); assert({fld}.take({fld}.len() as int) =~= {fld}); lemma_{enc[:5]}_all({v}); lit_{t}(); }}"
        elif t in ("MATR", "RPRB"):
            fn = "materials" if t == "MATR" else "render_probes"
            fld = f"{me}.{fn}->0"
            c.loops[n] = f"""iter __it
    invariant Gd_valid(*{gp}, {ver}), {W}, {me}.{fn} is Some, __it.seq().len() == {fld}@.len(), forall|i: int| 0 <= i < {fld}@.len() ==> *(#[trigger] __it.seq()[i]) == {fld}@[i],
        __g0.{fn} is None, __it.index() == 0 ==> __g == __g0 && __q == __q0, __it.index() > 0 ==> __g == (GameData {{ {fn}: Some(mk_vec({fld}@.take(__it.index()))), ..__g0 }}) && __q == {code(t)},"""
            c.before_loop[n] = f"let ghost __g0 = __g; let ghost __q0 = __q; proof {{ Gd_valid_rest({me}, {ver}); }}"
            c.loop_start[n] = f"broadcast use {{{BCW}}}; let ghost __i = __it.index(); proof {{ lit_{t}(); Gd_valid_rest({me}, {ver}); reveal_strlit(\"\"); axiom_mk_vec_shorter({fld}@.take(__i), {fld}); assert({fld}@.take(__i + 1) =~= {fld}@.take(__i).push({fld}@[__i])); assert(__i == 0 ==> {fld}@.take(1) =~= seq![{fld}@[0]]); assert({'Material_fits' if t == 'MATR' else 'Probe_fits'}({fld}@[__i])); }}"
            c.after_loop[n] = f"proof {{ broadcast use axiom_mk_vec; assert({fld}@.take({fld}@.len() as int) =~= {fld}@); assert(mk_vec({fld}@) == {fld}); }}"


def step_lemmas(c, body):
    """the writer's statements in runs: what each run does to the settings written so far (derived from the extracted
    text; only a device of the proof -- Gd_fin says that together they give the value being written)"""
    d = schema()
    ts, pd = tags(), dict(plain())
    c.steps.clear()
    vc.isolate(body, c)
    steps = list(c.steps)
    c.steps.clear()
    opt = {f for f, ty in d["fields"] if ty.startswith("Option<")} - {"bg_enable_fss"}
    x, ne = "", 0
    sig = "h: GameData, me: GameData, ver: u32"
    for j, st in enumerate(steps):
        fs = c.step_fields(st)
        if st[0] == "EFSS":
            cond = ("ver >= 1080 && !me.is_10_8_0_beta1_to_beta4" if ne == 0 else "(ver < 1080 || me.is_10_8_0_beta1_to_beta4)") + " && me.bg_enable_fss is Some"
            up = f"bg_enable_fss: if {cond} {{ me.bg_enable_fss }} else {{ h.bg_enable_fss }}"
            if ne:
                up += f", is_10_8_0_beta1_to_beta4: if {cond} && ver == 1080 {{ true }} else {{ h.is_10_8_0_beta1_to_beta4 }}"
            ne += 1
        else:
            up = ", ".join(f"{f}: me.{f}" for f in dict.fromkeys(fs))
        x += f"#[verifier::opaque] pub open spec fn Gd_mix_{j}({sig}) -> GameData {{ GameData {{ {up}, ..h }} }}\n"
    for j in range(len(steps) + 1):
        fs = sorted({f for st in steps[j:] for f in c.step_fields(st)} & opt)
        x += f"#[verifier::opaque] pub open spec fn Gd_none_{j}(h: GameData) -> bool {{ {' && '.join(f'h.{f} is None' for f in fs) or 'true'} }}\n"
    for j, st in enumerate(steps):
        if st[0] != "run":
            x += f"pub proof fn Gd_keep_{j}({sig}) requires Gd_none_{j}(h) ensures Gd_none_{j + 1}(Gd_mix_{j}(h, me, ver)) {{ reveal(Gd_none_{j}); reveal(Gd_none_{j + 1}); reveal(Gd_mix_{j}); }}\n"
    x += "pub proof fn Gd_none_init() ensures Gd_none_0(GameData_default()) { GameData_default_facts(); reveal(Gd_none_0); }\n"
    n = len(steps)
    arr = "".join(f"assert(s{n}.{f} =~= me.{f}); " for f, ty in d["fields"] if ty.startswith("["))
    x += f"""pub proof fn Gd_fin({', '.join(f's{j}: GameData' for j in range(n + 1))}, me: GameData, ver: u32)
    requires s0 == GameData_default(), Gd_valid(me, ver), {', '.join(f's{j + 1} == Gd_mix_{j}(s{j}, me, ver)' for j in range(n))},
    ensures s{n} == me,
{{
    GameData_default_facts(); reveal(Gd_valid); {' '.join(f'reveal(Gd_mix_{j});' for j in range(n))}
    {arr}
    {' '.join(f'assert(s{n}.{f} == me.{f});' for f, ty in d["fields"])}
}}
"""
    return x


def modules():
    base = [vc.parse_vc(os.path.join(HERE, n + ".vc")) for n in items.BASE]
    mat, probe = items.item_module("Material"), items.item_module("RenderProbe")
    t = set(tags()) | {"TMON", "TMIN", "ENDB"} | set(mat.tags) | set(probe.tags)
    base.insert(-1, items.lit_module(t))
    base += items.enum_items(sorted(set(mat.enums) | set(probe.enums)))
    base += [vc.parse_vc(os.path.join(HERE, n + ".vc")) for n in ("bytes", "savemat", "version")] + [mat, probe, vc.parse_vc(os.path.join(HERE, "probe.vc"))]
    for m in base:
        m.fixups = items.fixups
    nb = len(base)
    en = items.enum_items(sorted({e["k"][5:] for _, e in plain() if e["k"].startswith("enum:")}))
    for m in en:
        m.fixups = items.fixups
    return base + en + [module()], nb


def job(name, tier):
    import jobs
    mods, nb = modules()
    return jobs.verify(name, mods, vc.extract(mods), 60, 6, ["--verify-root"], lambda m, e: vc.render(m, e, nb))
