#!/usr/bin/env python3
"""writes replay/src/gen_items.rs from vc/schema.json (both committed; run after editing the schema)"""
import json, os, sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(ROOT, "vc"))
import items
S = items.SCHEMA
mod = lambda T: {"HitTarget": "hittarget", "DragPoint": "dragpoint", "LightSequencer": "lightsequencer", "PartGroup": "partgroup", "TextBox": "textbox"}.get(T, T.lower())
out = []
w = out.append
w("//! Generated by tools/gen_replay.py from vc/schema.json: per element kind, how each record is encoded and which field it holds.")
w("#![allow(unused_variables, unused_mut, non_snake_case, clippy::all)]")
w("use crate::oracle::*;\nuse crate::{draw, Rng};\nuse vpin::vpx::gameitem::*;\nuse vpin::vpx::gameitem::{vertex2d::Vertex2D, vertex3d::Vertex3D};\nuse crate::draw::Chunk;")
used = set()
DATA = {"GameData": "vpin::vpx::gamedata::GameData", "Material": "vpin::vpx::material::Material"}
ALL = list(S["items"].items()) + [(T, S["data"][T]) for T in DATA]
for T, d in ALL:
    for t, effs in d["tags"]:
        for e in effs:
            if e["k"].startswith("enum:"):
                used.add(e["k"][5:])

def enum_path(e):
    p = S["enums"][e]["file"].replace("src/vpx/", "").replace(".rs", "").replace("/", "::")
    return f"vpin::vpx::{p}::{e}"

for e in sorted(used):
    x = S["enums"][e]
    w(f"pub fn enc_{e}(v: &{enum_path(e)}) -> Vec<u8> {{\n    match v {{")
    for n, v in x["pairs"]:
        w(f"        {enum_path(e)}::{v} => le32({n}{"i32 as u32" if n < 0 else ""}),")
    fb = x["fallback"]
    if fb and "(" in fb:
        w(f"        {enum_path(e)}::{fb.split('(')[0]}(x) => le32(*x as u32),")
    w("    }\n}")
    w(f"pub fn draw_{e}(r: &mut Rng) -> ({enum_path(e)}, u32) {{")
    n = len(x["pairs"])
    if fb:
        w(f"    if r.chance(5) {{\n        let known = [{', '.join(str(p[0]) for p in x['pairs'])}];\n        let mut n = r.u32();\n        while known.contains(&n) {{ n = n.wrapping_add(0x1001); }}")
        w(f"        return ({enum_path(e)}::{fb.split('(')[0]}{'(n)' if '(' in fb else ''}, n);\n    }}")
    w(f"    match r.below({n}) {{")
    for i, (k, v) in enumerate(x["pairs"]):
        w(f"        {i if i < n - 1 else '_'} => ({enum_path(e)}::{v}, {k}{'i32 as u32' if k < 0 else ''}),")
    w("    }\n}")

SIMPLE = {"f32": ("f(VAL)", "r.f32()"), "u32": ("le32(VAL)", "r.u32()"), "i32": ("le32(VAL as u32)", "r.i32()")}

def enc(k, v, ref=False):
    """expression: bytes of value expression v (a reference when ref)"""
    dv = f"*{v}" if ref else v
    if k in SIMPLE:
        return SIMPLE[k][0].replace("VAL", f"({dv})")
    if k == "bool": return f"b32({dv})"
    if k == "str": return f"str8(&{v})"
    if k == "wstr": return f"wide(&{v})"
    if k == "color": return f"draw::color_bytes(&{v})"
    if k == "v2": return f"draw::v2_bytes(&{v})"
    if k == "v3": return f"draw::v3_bytes(&{v}, true)"
    if k == "v3u": return f"draw::v3_bytes(&{v}, false)"
    if k == "q8": return f"draw::q8_bytes({dv})"
    if k == "data": return f"{v}.clone()"
    if k.startswith("enum:"): return f"enc_{k[5:]}(&{v})"
    raise KeyError(k)

def drawn(k):
    """statement list: draws `v` and its bytes `b`"""
    if k in SIMPLE:
        return f"let v = {SIMPLE[k][1]}; b.extend({enc(k, 'v')});"
    if k == "bool": return "let (v, e) = draw::boolean(r); b.extend(e);"
    if k == "str": return "let (v, e) = draw::string(r); b.extend(e);"
    if k == "wstr": return "let (v, e) = draw::wide_string(r); b.extend(e);"
    if k == "color": return "let (v, e) = draw::color(r); b.extend(e);"
    if k == "v2": return f"let v = Vertex2D {{ x: r.f32(), y: r.f32() }}; b.extend({enc(k, 'v')});"
    if k == "v3": return "let v = Vertex3D { x: r.f32(), y: r.f32(), z: r.f32() }; b.extend(draw::v3_bytes_pad(&v, r));"
    if k == "v3u": return f"let v = Vertex3D {{ x: r.f32(), y: r.f32(), z: r.f32() }}; b.extend({enc(k, 'v')});"
    if k == "q8": return "let (v, e) = draw::q8(r); b.extend(e);"
    if k == "data": return "let v = r.bytes(60); b.extend(v.clone());"
    if k.startswith("enum:"): return f"let (v, e) = draw_{k[5:]}(r); b.extend(le32(e));"
    raise KeyError(k)

SPECIAL = {"RTNT"}
for T, d in ALL:
    TP = DATA.get(T) or f"{mod(T)}::{T}"
    ty = {f: t for f, t in d["fields"]}
    tags = items.all_tags(d)
    is_special = lambda t, e: e[0]["k"] == "special" or T == "Material" and t in SPECIAL
    if d["shared"] is False and d["child"] is False and d["timer"]:
        pass
    w(f"\n// ---------------------------------------------------------------- {T}")
    w(f"pub const {T.upper()}_TAGS: &[&str] = &[{', '.join(json.dumps(t) for t, _ in tags)}];")
    # records of a value, as written
    w(f"pub fn records_{T}(x: &{TP}) -> Vec<Chunk> {{\n    let mut o: Vec<Chunk> = vec![];")
    pushes = [(t, e[0]) for t, e in tags if e[0]["k"] == "push"]
    done = False
    for t, effs in tags:
        k = effs[0]["k"]
        fs = effs[0].get("f")
        if t in d.get("read_only", []):
            continue
        if is_special(t, effs):
            w(f"    o.extend(crate::data::{T}_special(\"{t}\", x));")
            continue
        if k == "dpnt":
            w(f"    for p in &x.{fs} {{ o.push((\"{t}\".into(), [rec(\"{t}\", &[]), draw::concat(records_DragPoint(p)), endb()].concat())); }}")
        elif k == "font":
            w(f"    o.push((\"{t}\".into(), rec4(\"{t}\", &draw::font_bytes(&x.{fs}))));")
        elif k == "push":
            if not done:
                done = True
                n = f"x.{pushes[0][1]['f']}.as_ref().map_or(0, |v| v.len())"
                w(f"    for i in 0..{n} {{")
                for t2, e2 in pushes:
                    w(f"        o.push((\"{t2}\".into(), rec(\"{t2}\", &{enc(e2['of'], 'x.' + e2['f'] + '.as_ref().unwrap()[i]')})));")
                w("    }")
        elif effs[0].get("opt"):
            assert len(effs) == 1
            w(f"    if let Some(v) = &x.{fs} {{ o.push((\"{t}\".into(), rec(\"{t}\", &{enc(k, 'v', True)}))); }}")
        else:
            parts = [enc(e["k"], "x." + e["f"]) for e in effs if e["k"] != "mark"]
            pl = f"[{', '.join(parts)}].concat()" if len(parts) > 1 else (parts[0] if parts else "[]")
            w(f"    o.push((\"{t}\".into(), rec(\"{t}\", &{pl})));")
        if T == "GameData" and t == "VSM1":
            w(f"    o.extend(crate::data::{T}_special(\"EFSS after VSM1\", x));")
    w("    o\n}")
    # one record with a fresh value
    w(f"pub fn set_{T}(t: &str, x: &mut {TP}, r: &mut Rng) -> Vec<u8> {{\n    let mut b: Vec<u8> = vec![];\n    match t {{")
    for t, effs in tags:
        k, fs = effs[0]["k"], effs[0].get("f")
        if is_special(t, effs):
            w(f"        \"{t}\" => return crate::data::{T}_set_special(\"{t}\", x, r),")
            continue
        if k == "dpnt":
            w(f"        \"{t}\" => {{ let (p, e) = draw::drag_point(r); x.{fs}.push(p); return [rec(\"{t}\", &[]), e].concat(); }}")
            continue
        if k == "font":
            w(f"        \"{t}\" => {{ let (v, e) = draw::font(r); x.{fs} = v; return rec4(\"{t}\", &e); }}")
            continue
        st = ""
        for e in effs:
            if e["k"] == "mark":
                continue
            if e["k"] == "push":
                st += drawn(e["of"]) + f" x.{e['f']}.get_or_insert_with(Vec::new).push(v);"
            else:
                st += drawn(e["k"]) + f" x.{e['f']} = " + ("Some(v);" if e.get("opt") else "v;")
        if k != "data" and not (k == "push" and effs[0]["of"] == "data"):
            st += " draw::trail(&mut b, r);"
        w(f"        \"{t}\" => {{ {st} }}")
    w("        _ => panic!(\"unknown tag {t}\"),\n    }\n    rec(t, &b)\n}")
    start = f"{TP}::default()"
    st = ""
    for f in d.get("default_some", []):
        st += f" x.{f} = None;"
    w(f"/// the value an element has before its first record\npub fn start_{T}() -> {TP} {{ let mut x = {start};{st} x }}")
    # a random writable value
    w(f"pub fn random_{T}(r: &mut Rng) -> {TP} {{\n    let mut x = {start};\n    let dense = r.below(4);")
    st = ""
    single = [t for t, e in tags if e[0]["k"] not in ("dpnt", "push") and not is_special(t, e)]
    w(f"    for t in [{', '.join(json.dumps(t) for t in single)}] {{ if dense != 0 || r.bool() {{ draw::PLAIN.with(|p| p.set(true)); set_{T}(t, &mut x, r); draw::PLAIN.with(|p| p.set(false)); }} }}")
    for t, effs in tags:
        if effs[0]["k"] == "dpnt":
            w(f"    for _ in 0..r.below(4) {{ x.{effs[0]['f']}.push(random_DragPoint(r)); }}")
    for f, t in d["fields"]:
        if t.startswith("Option<"):
            w(f"    if r.chance(3) {{ x.{f} = None; }}")
    if pushes:
        for t, e in pushes:
            w(f"    x.{e['f']} = None;")
        w(f"    if r.bool() {{ let n = r.range(1, 4);")
        for t, e in pushes:
            w(f"        x.{e['f']} = Some((0..n).map(|_| {'r.u32()' if e['of'] == 'u32' else 'r.bytes(40)'}).collect());")
        w("    }")
    w("    x\n}")
    w(f"pub fn same_{T}(what: &str, got: &{TP}, want: &{TP}) -> crate::R {{")
    w("    if got != want { return crate::same(what, got, want); }")
    if not any(e["k"] == "font" for _, effs in tags for e in effs):
        w("    crate::same_dbg(what, got, want)\n}")
    else:
        w("    Ok(())\n}")
kinds = [T for T in S["items"] if T != "DragPoint"]
w("\n#[macro_export]\nmacro_rules! for_each_kind {\n    ($m:ident) => {")
for T in S["items"]:
    w(f"        $m!({T}, {mod(T)}, \"{T}\", {T.upper()}_TAGS, records_{T}, set_{T}, start_{T}, random_{T}, same_{T});")
w("    };\n}")
open(os.path.join(ROOT, "replay/src/gen_items.rs"), "w").write("\n".join(out) + "\n")
