"""Contracts for the JSON forms: per element kind, the serde implementations on the real code, run against a serializer
that records the value it is given and a deserializer that hands that value out (any serde format that is faithful to
the derived form of the JSON struct behaves like this pair; the derived part itself is assumed)."""
import os, re
import vc
import items
from vc import Module, Contract

# fields an element does not keep in its JSON: they live in the index file, or (meshes) in files of their own
ELSEWHERE = {"is_locked", "editor_layer", "editor_layer_name", "editor_layer_visibility"}
MESH = {"num_vertices", "compressed_vertices_len", "compressed_vertices_data", "num_indices", "compressed_indices_len",
        "compressed_indices_data", "compressed_animation_vertices_len", "compressed_animation_vertices_data"}
BASE_ITEMS = {
    "src/vpx/gameitem/vertex2d.rs": ["struct Vertex2D"], "src/vpx/gameitem/vertex3d.rs": ["struct Vertex3D"],
    "src/vpx/gameitem/vertex4d.rs": ["struct Vertex4D"], "src/vpx/color.rs": ["struct Color"],
    "src/vpx/gameitem/select.rs": ["struct TimerData"],
}
SHIMS = """

/// a serializer that records what it is given; a deserializer that hands out what was recorded
pub struct VSer {}
pub struct VDe<J> { pub j: J }
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T { #[verifier::external_body] fn v_clone(&self) -> (r: T) { unimplemented!() } }
pub trait VJson: Sized {
    fn serialize(&self, s: VSer) -> (r: Result<Self, VErr>) ensures r is Ok && r->Ok_0 == *self;
    fn deserialize(d: VDe<Self>) -> (r: Result<Self, VErr>) ensures r is Ok && r->Ok_0 == d.j;
}
"""


def kinds():
    return [(T, d["file"], d["fields"], keep(T, d["fields"])) for T, d in items.SCHEMA["items"].items()]


def keep(T, fields):
    """fields the JSON form keeps"""
    drop = set() if T in ("DragPoint", "PartGroup") else set(ELSEWHERE)
    if T == "Primitive":
        drop |= MESH
    return [f for f, _ in fields if f not in drop]


def norm(t):
    return re.sub(r"\s+", "", t)


def struct_fields(text):
    b = text[text.index("{") + 1:text.rindex("}")]
    out = []
    for p in vc.split_top(b):
        p = re.sub(r"#\s*\[.*?\]", "", p).strip()
        m = re.match(r"(?:pub(?:\s*\([^)]*\))?\s+)?(\w+)\s*:\s*(.*)$", p, re.S)
        if m:
            out.append((m.group(1), norm(m.group(2))))
    return out


def field_rel(f, tt, jt, x="x", j="j"):
    tt, jt = norm(tt), norm(jt)
    if tt == jt:
        return f"{x}.{f} == {j}.{f}"
    if (tt, jt) == ("f32", "F32WithNanInf"):
        return f"{x}.{f} == {j}.{f}.0"
    if (tt, jt) == ("Option<f32>", "Option<F32WithNanInf>"):
        return f"({x}.{f} is Some) == ({j}.{f} is Some) && ({x}.{f} is Some ==> {x}.{f}->0 == ({j}.{f}->0).0)"
    if (tt, jt) == ("bool", "Option<bool>"):
        return f"{x}.{f} == (match {j}.{f} {{ Some(b) => b, None => false }})"
    if (tt, jt) == ("Vec<u8>", "Option<Vec<u8>>"):
        return f"{x}.{f}@ == (match {j}.{f} {{ Some(b) => b@, None => Seq::<u8>::empty() }})"
    if (tt, jt) == ("Font", "FontJson"):
        return f"Font_json({x}.{f}, {j}.{f})"
    return None


def transform(body):
    body = body.replace(".clone()", ".v_clone()")
    body = re.sub(r"([\w.]+)\s*\.map\(F32WithNanInf::from\)", r"(match \1 { Some(v) => Some(F32WithNanInf::from(v)), None => None })", body)
    body = re.sub(r"([\w.]+)\s*\.map\(f32::from\)", r"(match \1 { Some(v) => Some(F32WithNanInf_value(v)), None => None })", body)
    body = re.sub(r"Some\(([\w.]+)\)\s*\.filter\(\|(\w+)\| \2 == &true\)", r"(if \1 { Some(true) } else { None })", body)
    body = re.sub(r"([\w.]+(?:\.v_clone\(\))?)\s*\.unwrap_or_default\(\)", r"(match \1 { Some(v) => v, None => Vec::new() })", body)
    body = re.sub(r"([\w.]+)\s*\.unwrap_or\((\w+)\)", r"(match \1 { Some(v) => v, None => \2 })", body)
    return body


def font_module():
    m = Module("font", "src/vpx/gameitem/font.rs")
    m.broadcast = ""
    m.items = ["enum FontStyle", "struct Font", "struct FontJson", "const CHARSET_ANSI"]
    for k, a, b in (("FontJson::from_font", "*{0}", "r"), ("FontJson::to_font", "r", "*self")):
        c = Contract(k)
        c.argspec = lambda ps, a=a, b=b: f"    ensures Font_json({a.format(ps[0])}, {b}),"
        c.transform = transform
        m.contracts[k] = c
    m.extra = """
pub open spec fn Font_json(x: Font, j: FontJson) -> bool {
    x.charset == (match j.charset { Some(c) => c, None => CHARSET_ANSI }) && x.style == j.style && x.weight == j.weight && x.size == j.size && x.name == j.name
}
pub proof fn Font_json_unique(x: Font, y: Font, j: FontJson) requires Font_json(x, j), Font_json(y, j) ensures x == y { }
"""
    return m


def nan_module():
    m = Module("json", "src/vpx/json.rs")
    m.broadcast = ""
    m.items = ["struct F32WithNanInf"]
    m.item_attrs = {"struct F32WithNanInf": "#[derive(Clone, Copy)]"}
    c = Contract("F32WithNanInf::from@From<f32>")
    c.spec = "    ensures r.0 == {0},"
    c.argspec = lambda ps: f"    ensures r.0 == {ps[0]},"
    m.contracts[c.key] = c
    c = Contract("f32::from@From<F32WithNanInf>")
    c.free = ("F32WithNanInf_value", "f32")
    c.argspec = lambda ps: f"    ensures r == {ps[0]}.0,"
    m.contracts[c.key] = c
    m.extra = """
impl VInto<F32WithNanInf> for f32 {
    open spec fn into_ok(self) -> bool { true }
    open spec fn into_is(self, r: F32WithNanInf) -> bool { r.0 == self }
    fn v_into(self) -> (r: F32WithNanInf) { F32WithNanInf::from(self) }
}
impl VInto<f32> for F32WithNanInf {
    open spec fn into_ok(self) -> bool { true }
    open spec fn into_is(self, r: f32) -> bool { r == self.0 }
    fn v_into(self) -> (r: f32) { F32WithNanInf_value(self) }
}
"""
    return m


def modules():
    """-> modules, notes (kinds whose JSON form has another shape than this generator knows)"""
    ks = kinds()
    by_file = {}
    for k in ks:
        by_file.setdefault(k[1], []).append(k)
    probe = []
    for f in by_file:
        m = Module("probe", f)
        m.items = [f"struct {k[0]}Json" for k in by_file[f]]
        probe.append(m)
    # a first extraction lists the functions and the JSON structs of each file
    for m in probe:
        m.contracts = {"?": Contract("?")}
    found = {m.file: e for m, e in zip(probe, vc.extract(probe))}
    enums = {}
    for T, f, fields, _ in ks:
        for _, t in fields:
            for e in items.SCHEMA["enums"]:
                if re.search(r"\b%s\b" % e, t):
                    enums.setdefault(items.SCHEMA["enums"][e]["file"], set()).add(e)
    shims = Module("shims", None)
    shims.extra = SHIMS
    mods = [shims]
    for f, its in BASE_ITEMS.items():
        m = Module("types", f)
        m.items = list(its)
        m.broadcast = ""
        if f.endswith("vertex3d.rs") or f.endswith("vertex2d.rs") or f.endswith("vertex4d.rs") or f.endswith("color.rs"):
            m.item_attrs = {its[0]: "#[derive(Clone, Copy)]"}
        mods.append(m)
    mods += [font_module(), nan_module()]
    for f, es in sorted(enums.items()):
        m = Module("enums", f)
        m.broadcast = ""
        m.items = ["enum " + e for e in sorted(es)]
        mods.append(m)
    ks.sort(key=lambda k: k[0] != "DragPoint")
    for T, f, fields, kept in ks:
        ex = found[f]
        J = T + "Json"
        m = Module("json_" + T, f)
        m.broadcast = ""
        m.items = ["struct " + T, "struct " + J]
        mods.append(m)
        jt = next((i["text"] for i in ex.get("items", []) if i["name"] == J), None)
        tf = dict((a, norm(b)) for a, b in fields)
        rels, fonts = [], []
        for a, b in (struct_fields(jt) if jt else []):
            r = field_rel(a, tf[a], b) if a in tf else None
            if r:
                rels.append(r)
            if a in tf and tf[a] == "Font" and b == "FontJson":
                fonts.append(a)
        missing = [a for a in kept if not any(re.search(r"\bx\.%s\b" % a, r) for r in rels)]
        if missing:
            m.undecided = [f"{T}: fields {', '.join(missing)} have no counterpart of a known type in {J}"]
        m.extra = f"""
/// the JSON struct says the same as the element, field by field
pub open spec fn {T}_json(x: {T}, j: {J}) -> bool {{ {' && '.join(rels) or 'true'} }}
impl VJson for {J} {{
    #[verifier::external_body] fn serialize(&self, s: VSer) -> (r: Result<Self, VErr>) {{ unimplemented!() }}
    #[verifier::external_body] fn deserialize(d: VDe<Self>) -> (r: Result<Self, VErr>) {{ unimplemented!() }}
}}
/// P10: an element survives its JSON form
pub fn {T}_json_roundtrip(x: &{T}) -> (r: Result<{T}, VErr>)
    ensures r is Ok, {', '.join(f'(r->Ok_0).{a} == x.{a}' for a in kept if a not in missing)},
{{
    match x.serialize(VSer {{}}) {{
        Ok(j) => {{
            let ghost j0 = j;
            let y = {T}::deserialize(VDe {{ j }});
            proof {{ {' '.join(f'Font_json_unique((y->Ok_0).{a}, x.{a}, j0.{a});' for a in fonts)} }}
            y
        }}
        Err(e) => Err(e),
    }}
}}
"""
        for full in ex.get("all_fns", []):
            short = full.split("@")[0]
            if not short.startswith((J + "::",)) and full not in (f"{T}::serialize@Serialize",) and not full.startswith(f"{T}::deserialize@Deserialize"):
                continue
            c = Contract(full)
            c.transform = transform
            c.json = (T, J)
            m.contracts[full] = c
    for m in mods:
        m.fixups = fixups
    return mods


def fixups(m, ex):
    fns = {f["full"]: f for f in ex.get("fns", [])}
    items.fixups(m, ex)
    for key, c in list(m.contracts.items()):
        if not getattr(c, "json", None):
            continue
        T, J = c.json
        f = fns.get(key)
        if f is None:
            continue
        ps = [re.sub(r"^\s*(mut )?", "", p) for p in f["params"]]
        ret = norm(f["ret"] or "")
        if key == f"{T}::serialize@Serialize":
            f["sig"] = "fn serialize(&self, %s: VSer)" % ps[1].split(":")[0].strip()
            f["ret"], f["where"] = f"Result<{J}, VErr>", ""
            c.spec = f"    ensures r is Ok, {T}_json(*self, r->Ok_0),"
        elif "deserialize@" in key:
            n = ps[0].split(":")[0].strip()
            f["sig"] = f"fn deserialize({n}: VDe<{J}>)"
            f["ret"], f["where"], f["impl"] = f"Result<{T}, VErr>", "", f"impl {T}"
            c.spec = f"    ensures r is Ok, {T}_json(r->Ok_0, {n}.j),"
        elif len(ps) == 1 and re.fullmatch(r"\w+:&(mut)?%s" % T, norm(ps[0])) and ret in ("Self", J):
            c.spec = f"    ensures {T}_json(*{ps[0].split(':')[0].strip()}, r),"
        elif len(ps) == 1 and norm(ps[0]) in ("&self", "self") and ret == T:
            c.spec = f"    ensures {T}_json(r, {'*self' if '&' in ps[0] else 'self'}),"
        else:
            del m.contracts[key]


# the parts of a table that are written to JSON files of their own; the fields listed live elsewhere
PARTS = [
    ("GameData", "src/vpx/gamedata.rs", {"gameitems_size", "sounds_size", "images_size", "fonts_size", "collections_size", "code",
                                         "materials_size", "materials_old", "materials_physics_old", "materials", "render_probes"}),
    ("Material", "src/vpx/material.rs", set()),
    ("SaveMaterial", "src/vpx/material.rs", set()),
    ("SavePhysicsMaterial", "src/vpx/material.rs", set()),
    ("SoundData", "src/vpx/sound.rs", {"wave_form", "data"}),
    ("FontData", "src/vpx/font.rs", {"data"}),
]
PART_ITEMS = {
    "src/vpx/gameitem/vertex2d.rs": ["struct Vertex2D"], "src/vpx/gameitem/vertex4d.rs": ["struct Vertex4D"], "src/vpx/color.rs": ["struct Color"],
    "src/vpx/model.rs": ["struct StringWithEncoding", "enum StringEncoding"],
    "src/vpx/gamedata.rs": ["enum ViewLayoutMode", "enum ToneMapper"], "src/vpx/material.rs": ["enum MaterialType"],
    "src/vpx/sound.rs": ["enum OutputTarget", "struct WaveForm"],
    "src/vpx/renderprobe.rs": ["enum RenderProbeType", "enum ReflectionMode", "struct RenderProbe", "struct RenderProbeWithGarbage", "struct RenderProbeJson"],
}


def part_modules():
    probe = []
    for f in sorted({p[1] for p in PARTS}):
        m = Module("probe", f)
        m.items = [k for T, g, _ in PARTS if g == f for k in (f"struct {T}Json", f"struct {T}")]
        m.contracts = {"?": Contract("?")}
        probe.append(m)
    found = {m.file: e for m, e in zip(probe, vc.extract(probe))}
    shims = Module("shims", None)
    shims.extra = SHIMS + """
impl StringWithEncoding { #[verifier::external_body] pub fn empty() -> Self { unimplemented!() } }
impl WaveForm { #[verifier::external_body] pub fn default() -> Self { unimplemented!() } }
"""
    mods = [shims]
    for f, its in PART_ITEMS.items():
        m = Module("types", f)
        m.items = list(its)
        m.broadcast = ""
        for it in its:
            if it.split()[1] in ("Vertex2D", "Vertex4D", "Color", "ViewLayoutMode", "ToneMapper"):
                m.item_attrs[it] = "#[derive(Clone, Copy)]"
        mods.append(m)
    mods.append(nan_module())
    for T, f, drop in PARTS:
        ex = found[f]
        J = T + "Json"
        text = {i["name"]: i["text"] for i in ex.get("items", [])}
        m = Module("part_" + T, f)
        m.broadcast = ""
        m.items = ["struct " + T, "struct " + J]
        mods.append(m)
        tf = dict(struct_fields(text[T])) if T in text else {}
        rels, have = [], set()
        for a, b in (struct_fields(text[J]) if J in text else []):
            r = field_rel(a, tf[a], b) if a in tf else None
            if r:
                rels.append(r)
                have.add(a)
        kept = [a for a in tf if a not in drop]
        fr = next((x for x in ex.get("all_fns", []) if x.startswith(f"{J}::from")), None)
        to = next((x for x in ex.get("all_fns", []) if re.match(r"%s::(in)?to_" % J, x)), None)
        m.extra = f"""
pub open spec fn {T}_json(x: {T}, j: {J}) -> bool {{ {' && '.join(rels) or 'true'} }}
"""
        missing = [a for a in kept if a not in have]
        if missing or not fr or not to:
            m.undecided = [f"{T}: {'fields ' + ', '.join(missing) + ' have no counterpart of a known type in ' + J if missing else 'no conversion functions of the known shape'}"]
        else:
            m.extra += f"""
/// a {T} survives its JSON form
pub fn {T}_json_roundtrip(x: &{T}) -> (r: {T})
    ensures {', '.join((f'r.{a}@ == x.{a}@' if tf[a] == 'Vec<u8>' else f'r.{a} == x.{a}') for a in kept)},
{{ {J}::{to.split('::')[1].split('@')[0]}(&{J}::{fr.split('::')[1].split('@')[0]}(x)) }}
"""
        for full in ex.get("all_fns", []):
            if full.startswith(J + "::"):
                c = Contract(full)
                c.transform = transform
                c.json = (T, J)
                m.contracts[full] = c
    m = Module("part_probe", "src/vpx/renderprobe.rs")
    m.broadcast = ""
    for k, a, b in (("RenderProbeJson::from_renderprobe", "*{0}", "r"), ("RenderProbeJson::to_renderprobe", "r", "*self")):
        c = Contract(k)
        def spec(ps, a=a, b=b, c=c):
            x = a.format(ps[0]) if b == "r" else "__ret"
            c.post = f"if ({x}).trailing_data@.len() == 0 {{ assert(({x}).trailing_data@ =~= Seq::<u8>::empty()); }}"
            return f"    ensures RenderProbe_json({a.format(ps[0])}, {b}),"
        c.argspec = spec
        c.transform = transform
        m.contracts[k] = c
    F = ["type_", "name", "roughness", "roughness_clear", "reflection_plane", "reflection_mode", "disable_light_reflection"]
    m.extra = f"""
pub open spec fn RenderProbe_json(x: RenderProbeWithGarbage, j: RenderProbeJson) -> bool {{
    {' && '.join(f'x.render_probe.{a} == j.{a}' for a in F)} && x.trailing_data@ == (match j.trailing_data {{ Some(b) => b@, None => Seq::<u8>::empty() }})
}}
/// a render probe survives its JSON form
pub fn RenderProbe_json_roundtrip(x: &RenderProbeWithGarbage) -> (r: RenderProbeWithGarbage)
    ensures r.render_probe == x.render_probe, r.trailing_data@ == x.trailing_data@,
{{ RenderProbeJson::to_renderprobe(&RenderProbeJson::from_renderprobe(x)) }}
"""
    mods.append(m)
    for m in mods:
        m.fixups = fixups
    return mods


def job(name, tier):
    import jobs
    mods = part_modules() if name == "json:parts" else modules()
    return jobs.verify(name, mods, vc.extract(mods), 60, 8)
