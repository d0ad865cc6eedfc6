"""Which Verus jobs and which replay harness decide each property."""
import os
import vc
import items
import jsonform

WORKERS = 7

TRUSTED = [
    "Verus 0.2026.09.13 and Z3: soundness of the verifier and its encoding of Rust",
    "tools/extract: the mechanical extraction of functions from /repo (what it drops and rewrites is listed in DESIGN.md)",
    "vstd specifications of std (Vec, slices, String, Option, integer to/from)",
    "vc/prelude.rs: assumed specifications of to_le_bytes, String/Vec construction, encoding_rs latin-1, UTF-16, nom's little-endian parsers",
]


def files_job(names, threads=8, rlimit=60):
    def go(name, tier):
        mods = [vc.parse_vc(os.path.join(vc.HERE, n + ".vc")) for n in names]
        return verify(name, mods, vc.extract(mods), rlimit, threads)
    return go


def verify(name, mods, ex, rlimit=30, threads=8, extra=(), render=None):
    """runs Verus; a function the verifier cannot take is set aside (undecided) and the rest is still verified"""
    d = os.path.join(vc.BUILD, "vc")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, name.replace(":", "_") + ".rs")
    aside = {}
    for _ in range(4):
        g = (render or vc.render)(mods, ex)
        open(path, "w").write(g.text())
        res = vc.run_verus(path, rlimit=rlimit, threads=threads, extra=extra)
        if res.get("status") == "timeout" or res["verified"] + res["errors"] > 0:
            break
        new = {}
        for dg in res["diags"]:
            if dg.get("level") != "error":
                continue
            for sp in dg.get("spans", []):
                o = g.owner.get(sp["line_start"])
                if o and o[0] == "fn":
                    new.setdefault(o[1], dg["message"])
        n = 0
        for m in mods:
            for key, c in m.contracts.items():
                full = f"{m.file}::{key}"
                if full in new and not c.external:
                    c.external = True
                    aside[full] = new[full]
                    n += 1
        if n == 0:
            break
    g.aside = aside
    g.externals = [x for x in g.externals if x not in aside]
    return g, res


def item_job(T, more=()):
    def go(name, tier):
        mods, nb = items.item_modules(T)
        mods += [vc.parse_vc(os.path.join(vc.HERE, n + ".vc")) for n in more]
        return verify(name, mods, vc.extract(mods), 60, 1, ["--verify-root"], lambda m, e: vc.render(m, e, nb))
    return go


def image_job(name, tier):
    mods, nb = items.image_modules()
    return verify(name, mods, vc.extract(mods), 60, 2, ["--verify-root"], lambda m, e: vc.render(m, e, nb))


def all_tags():
    import gamedata
    t = {"TMON", "TMIN", "ENDB"} | set(gamedata.tags())
    for T in list(ITEMS) + ["CollectionS", "FontDataS", "CustS", "Material", "RenderProbe", "ImageData", "JpegS"]:
        t |= set(items.item_module(T).tags)
    return t


def base_job(name, tier):
    """the layers below the elements (vectors, colours, fonts, quantised numbers, tag dispatch, tag literals), verified together"""
    mods = [vc.parse_vc(os.path.join(vc.HERE, n + ".vc")) for n in items.BASE]
    mods.insert(-1, items.lit_module(all_tags()))
    return verify(name, mods, vc.extract(mods), 30, 8)


def gamedata_job(name, tier):
    import gamedata
    return gamedata.job(name, tier)


def client_job(names, enums=(), before=(), rlimit=60, threads=8):
    """modules verified against the contracts of the base layers (which the job `base` verifies)"""
    def go(name, tier):
        mods = [vc.parse_vc(os.path.join(vc.HERE, n + ".vc")) for n in items.BASE]
        mods.insert(-1, items.lit_module({"TMON", "TMIN", "ENDB"}))
        nb = len(mods)
        mods += items.enum_items(list(enums)) + [vc.parse_vc(os.path.join(vc.HERE, n + ".vc")) for n in names]
        for m in mods:
            m.fixups = items.fixups
        return verify(name, mods, vc.extract(mods), rlimit, threads, ["--verify-root"], lambda m, e: vc.render(m, e, nb))
    return go


CONTAINER = ["model", "biff", "bytes", "cfb", "cversion", "cmodel", "cgamedata", "cimage", "tableinfo", "container"]
# slowest first
ITEMS = ["Primitive", "Wall"] + sorted(T for T in items.SCHEMA["items"] if T not in ("Primitive", "Wall"))
JOBS = {
    "biff": files_job(["model", "biff"]),
    "base": base_job,
    "lzw": files_job(["lzw", "imageswap"]),
    "version": files_job(["version"]),
    **{"item:" + T: item_job(T) for T in ITEMS},
    "mac": files_job(["model", "biff", "bytes", "cfb", "cversion", "mac"]),
    "savemat": files_job(["model", "biff", "color", "bytes", "savemat"]),
    "sound": client_job(["version", "bytes", "wav", "sound"], ["OutputTarget"]),
    "mesh": files_job(["model", "biff", "bytes", "vert", "face", "prim", "meshfiles"]),
    "names": files_job(["names", "names1", "names2"]),
    "utf16": files_job(["model", "biff", "bytes", "utf16"]),
    "tableinfo": files_job(["model", "biff", "bytes", "cfb", "tableinfo"]),
    "dirtable": client_job(["version", "bytes", "wav", "sound", "cfb", "names", "names1", "names2", "vfs", "fontjson", "fontfiles", "soundjson", "soundfiles",
                            "dircoll", "dirinfo", "dirjson", "dirversion", "dirmat", "dirgd", "dirmeta", "dirvpx", "dirparts", "dirtable"], ["OutputTarget"]),
    "container": files_job(CONTAINER),
    "json": jsonform.job,
    "json:parts": jsonform.job,
    "data:Collection": item_job("CollectionS"),
    "data:FontData": item_job("FontDataS"),
    "data:CustomInfoTags": item_job("CustS"),
    "data:Material": item_job("Material"),
    "data:RenderProbe": item_job("RenderProbe", ["probe"]),
    "data:ImageData": image_job,
    "gamedata": gamedata_job,
}


def run(name, tier):
    return JOBS[name](name, tier)


PROPS = {
    "P01": {
        "jobs": ["biff"], "replay": "p01", "scope": r"biff\.rs|biff",
        "note": "Unbounded proof, per function, that every stream writer appends exactly the format's bytes and every reader returns the value at the cursor and advances exactly; assumes the Verus/vstd model of std and the listed contracts of nom and encoding_rs, which the replay harness exercises on the real crate.",
    },
    "P02": {
        "jobs": ["biff", "utf16"], "replay": "p02", "scope": r"model\.rs|str|String|string|lemma|utf16",
        "trusted": ["std encode_utf16 and String::from_utf16: the second inverts the first (axiom_units); every Unicode scalar value and random strings are run"],
        "note": "Unbounded proof of the text conversions and of the UTF-16 codec's byte layer over assumed contracts for UTF-8 validation, Latin-1 transcoding and std's UTF-16 units, which the replay runs over every scalar value.",
    },
    "P03": {
        "jobs": ["item:" + T for T in ITEMS] + ["base"], "replay": "p03", "scope": r"^item:|fn |lemma",
        "bounded": ["FontStyle's HashSet conversions (axiom_font_styles): all 256 flag bytes and all 32 sets are run", "gameitem.rs write: the match over kinds is run for every kind"],
        "note": "Unbounded proof per element kind: the writer's stream, read by the reader's specification, is the element; the reader equals that specification. Assumes the codec contracts listed as trusted (std, encoding_rs, nom); validated by replay on the real crate.",
    },
    "P04": {
        "jobs": ["item:" + T for T in ITEMS] + ["base"], "replay": "p04", "scope": r"biff_read|read_shared|default|next|lemma",
        "bounded": ["default values of fields other than optional ones and lists are compared with the committed golden values (one run per kind)"],
        "note": "Unbounded proof per element kind that the reader computes the fold of the per-record specification over any well-framed stream, starting from the defaults; unknown tags change nothing. Default field values are compared with committed ones by replay.",
    },
}
PROPS["P07"] = {
    "jobs": ["base", "version"], "replay": "p07", "scope": r"color|version",
    "bounded": ["hexadecimal text of colours (serde, format!): every value of each channel plus random colours are run",
                "decimal text of versions (std parse / to_string): every version below 100000 and random ones are run",
                "quantisers (floating point): every stored value of every width up to 8 bits is run, which is the whole domain of the statement"],
    "note": "Unbounded proof for the 32-bit and stored forms of colours and for version numbers and their order; the text forms and the floating-point quantisers are outside the verifier and decided by bounded runs on the real crate (exhaustive for the quantisers).",
}
PROPS["P08"] = {
    "jobs": ["lzw", "biff", "data:ImageData"], "replay": "p08", "scope": r"lzw|image|ImageData|blocks_until|lemma",
    "trusted": ["crate weezl: its LZW decoder undoes its encoder (axiom_lzw); its output is decoded by an independent decoder in the replay harness"],
    "bounded": ["conversion to and from a BMP file (crate image): random bitmaps are extracted, their BMP pixels compared channel by channel, and assembled again"],
    "note": "Unbounded proof that the sub-block layer and the channel swap are exact and invertible for every byte sequence; the dictionary coder (weezl) is assumed and compared with an independent decoder by bounded runs, as is the BMP file conversion.",
}
PROPS["P05"] = {
    "jobs": ["gamedata", "data:Material", "data:RenderProbe", "savemat", "version", "base"], "replay": "p05", "scope": r"gamedata|Gd_|material|savemat|probe|Material|RenderProbe|lemma|biff|version",
    "trusted": ["crate bytes: BytesMut appends and takes little-endian numbers (vc/bytes.vc)", "std CStr::from_bytes_until_nul",
                "std Option::get_or_insert_with(Vec::new) and the conversion of a vector of 16 colours to an array",
                "PartialEq and FromStr of enums used in the settings: the same contracts as for the elements"],
    "note": "Unbounded proof that the stream written for any settings and version reads back as those settings, through the fold of 153 record effects that the real dispatch is proved to compute, with materials (new and legacy forms), render probes, custom colours, script and the two places of the EFSS record; the real writer's body is cut by the extraction into consecutive parts verified separately.",
}
PROPS["P06"] = {
    "jobs": ["sound", "tableinfo", "data:Collection", "data:FontData", "data:CustomInfoTags", "data:ImageData", "base", "lzw"], "replay": "p06",
    "scope": r"sound|collection|font|custominfo|CollectionS|FontDataS|CustS|tableinfo|lemma|image|ImageData|JpegS|lzw|biff",
    "trusted": ["crate cfb: a compound file is a map from paths to byte streams (vc/cfb.vc), its storage does not fail, and read_storage lists each stream below a storage (vc/tableinfo.vc)",
                "std HashMap: one value per key, iterated key by key (InfoMap in vc/tableinfo.vc); std Path::file_name (axiom_base_name)",
                "std encode_utf16 and String::from_utf16: the second inverts the first (axiom_units)"],
    "note": "Unbounded proof for image, sound, font, collection and custom-info streams and for the table information: its twelve fields and its further entries, each in its own stream of the container, are written and read back equal for all information whose further names can be names of streams (one path component, none of the twelve reserved names). The container crate is assumed to be a map from paths to bytes; names that differ only in letter case are not both used.",
}
PROPS["P09"] = {
    "jobs": ["sound"], "replay": ["p09", "p09w"], "scope": r"sound|wav|lemma",
    "trusted": ["crate bytes: BytesMut appends and takes little-endian numbers (vc/bytes.vc)", "whether a path names a WAV file is a function of the path (std Path::extension)"],
    "note": "Unbounded proof: the real header reader computes wav_parse of any bytes, the real writer appends wav_enc, and lemma_wav gives every header that a WAV file can carry back whatever follows it; write_sound and read_sound are composed to give format and samples back for every sound. The same is replayed on random headers, foreign files and sounds to turn a failed obligation into an input.",
}
PROPS["P10"] = {
    "jobs": ["json", "json:parts"], "replay": "p10", "scope": r"json|Json|serialize|from|lemma",
    "trusted": ["crate serde's derive on the JSON form structs: the struct's fields come back from its JSON text (exercised by the replay on the real crates serde and serde_json)",
                "derived Clone of the model types returns an equal value"],
    "bounded": ["the text forms of enums, colours and of the float wrapper (serde visitors, format!): every enum value, every float class and random colours are run through serde_json"],
    "note": "Unbounded proof per kind that the element's JSON form, built by its Serialize, gives the element back through its Deserialize, field by field, except for the fields kept in other files; serde's derived mapping between struct and text is assumed and run on random elements of every kind, labelled bounded.",
}
PROPS["P12"] = {
    "jobs": ["names", "json", "json:parts", "dirtable"], "replay": "p12", "scope": r"names|gameitems|util|json|Json|serialize|lemma|fonts|sounds|font|sound|files|vfs|roundtrip|expanded|material|metadata|version|collection|dir|table",
    "trusted": ["std str::to_lowercase is a function of the text that keeps a trailing number (axiom_lower_count); crate sanitize-filename is a function of the text and leaves no separator in it",
                "the file system keeps a map from paths to bytes, a new file is empty and takes what is written at its end, and nothing else changes it meanwhile (vc/vfs.vc: the functions are verified with the file system as `&mut`)",
                "serde_json: from the text or the tree form of a value the value comes back, unless a number in it is infinite or not a number (json_text, json_of, json_plain, value_form, value_as)",
                "materials, their old forms, render probes and settings come back from their JSON forms (mat_form, save_form, phys_form, probe_form, gd_form: the contracts that the jobs json and json:parts prove), and the old forms made of a material are functions of it (save_of, phys_of: the job savemat)",
                "write_gameitems/read_gameitems and write_images/read_images: assumed to touch only the files of their part, to depend on nothing else, and to read back what they wrote (items_stored, images_stored); decided by the bounded runs",
                "std: a u32 is read from its decimal digits, read_to_string decodes UTF-8, a HashMap's clone is equal to it",
                "font and sound file extensions are functions of the path and have no dot (axiom_font_ext, axiom_snd_ext); derived Clone returns an equal value"],
    "bounded": ["gameitems.rs write_gameitems/read_gameitems, primitives.rs and images.rs write_images/read_images: random tables of every shape, with colliding, empty, reserved and non-ASCII names, are extracted to memory and assembled again, and every part is compared"],
    "note": "Unbounded proof of the pair write_fs/read_fs over a file system that is a map: a table written to an empty directory is read back with every part equal (table_roundtrip), each part in files of its own that the later parts leave alone; down to the functions of fonts, sounds, materials, render probes, settings, script, info, collections and version, the makers of unique file names and the JSON forms. The functions of game items and images are assumed there and decided by bounded runs on the real crate, labelled bounded.",
}
PROPS["P13"] = {
    "jobs": ["mesh"], "replay": "p13", "scope": r"mesh|prim|face|obj|bytes|lemma",
    "trusted": ["crate bytes: BytesMut appends and takes little-endian numbers (vc/bytes.vc)",
                "zlib (crate flate2): inflating what was deflated gives it back (zlib_ok, inflate)",
                "the primitive's mesh functions see a struct with only the fields they use (PrimMesh)"],
    "bounded": ["OBJ and glTF text and binary files (write_obj_to_writer, read_obj, the glTF writers and readers), replace_vertices and read_gameitem_binaries: random meshes with unusual numbers, names and sizes are extracted in every format and assembled again",
                "compress_vertices_and_indices (threads): assumed to deflate both streams; run on the same meshes"],
    "note": "Unbounded proof that a primitive's compressed streams are read as the mesh they hold, that a mesh is packed with indices of the width its vertex count asks, and that packing then reading gives the mesh back; the text forms of the mesh files are decided by bounded runs on the real crate, labelled bounded.",
}
PROPS["P11"] = {
    "jobs": ["container", "mac"], "replay": "p11", "scope": r"container|mac|mod\.rs|version|cfb|lemma|gamedata|image|tableinfo",
    "trusted": ["crate cfb: a compound file is a map from paths to byte streams (vc/cfb.vc), and its storage does not fail; std Path joins",
                "each part's own stream form is opaque here and read back as written (decided under P03, P05 and P06)",
                "the settings and image structs are seen with only the fields the container functions use (reduced on every run)",
                "std HashMap: one value per key, iterated key by key (InfoMap in vc/tableinfo.vc), and read_storage of crate cfb lists each stream below a storage",
                "crate md2 digests the concatenation of its inputs (md2_of); std Path::file_name and with_file_name (axiom_base_name); the signed streams are well framed (mac_ok), and the functions of the job container use the digest as a function of the file's map"],
    "bounded": ["images_to_webp, compact, verify/extractvbs/importvbs, and read/write/open on files: random tables and random sequences of operations"],
    "note": "Unbounded proof that writing a table puts every part into its own numbered stream and nothing else, that reading goes through the same streams in the same order and number, and that the editing operations change one part; the container crate is assumed to be a map from paths to bytes, each part's bytes are decided under P03/P05/P06. The real generate_mac is proved to digest exactly the signed text (mac_input) for every file whose signed streams are well framed; the digest itself (crate md2) is assumed and compared with an independent one by replay.",
}
