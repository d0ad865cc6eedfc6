#!/usr/bin/env python3
"""source of properties.jsonl and MANIFEST.json (run after editing: python3 tools/props_src.py)"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vc"))
import jobs
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook="none"):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
V = "src/vpx/"
p("P01", "Records are framed exactly and read back unchanged",
  "Any sequence of records written to a stream (numbers, booleans, vectors, strings, raw or length-prefixed data) produces exactly the little-endian bytes of the file format, each record carrying its own byte length. Reading such a stream returns the same tags and values in order, moves the cursor and the record's byte budget by exactly the width of what was read, skips whatever part of a record was left unread (whatever its size), and stops at the end marker; nested streams start at the current position and report what they consumed.",
  ["inputs", "histories"], "every value of every primitive type, every byte string and every order of write and read operations on a stream",
  "the two unit tests of the stream layer read an empty stream and one empty record; the table files in testdata exercise only the values they happen to contain",
  [V + "biff.rs"], [("record reader", V + "biff.rs:38"), ("record writer", V + "biff.rs:528")],
  state=[("reader cursor, record budget, current tag", "where the next value is read and how much of the record is left"), ("writer buffer, open record start and size", "bytes emitted so far and the record still to be closed")])
p("P02", "Text keeps every character and every script byte",
  "A script's bytes are kept exactly: bytes that are valid UTF-8 are read as UTF-8 text and all others as Latin-1, and writing the text back gives the original bytes. Latin-1 names (with the special one-byte form of the empty name used in sound records) and UTF-16 names, including characters outside the basic plane, come back unchanged from being written and read, with the byte length stated in front of them.",
  ["inputs"], "every byte string for scripts, every string of Latin-1 characters without NUL, every Unicode string for wide names",
  "tests round-trip one short UTF-16 string and a few invalid ones; the Latin-1 and UTF-8 script paths are only reached with the scripts in testdata",
  [V + "model.rs", V + "biff.rs", V + "utf16.rs"],
  [("encoding-preserving text", V + "model.rs:58"), ("string readers and writers", V + "biff.rs:172"), ("UTF-16LE codec", V + "utf16.rs:3")])
p("P03", "Every table element survives being written and read",
  "For each of the table element kinds (walls, flippers, timers, plungers, text boxes, bumpers, triggers, lights, kickers, decals, gates, spinners, ramps, reels, light sequencers, primitives, flashers, rubbers, hit targets, balls, part groups) writing an element and reading the result gives an equal element, including its drag points, fonts, timer and editor-layer attributes. Each field is written under its own record tag with the file format's width and behind the kind's own type number, optional fields only when present.",
  ["inputs"], "every element value whose strings the format can represent, for every element kind",
  "each kind has one or two unit tests with one hand-made or one random value; a swapped, truncated or forgotten field that the sample leaves at its default is not seen",
  [V + "gameitem/" + n for n in ["ball.rs", "bumper.rs", "decal.rs", "dragpoint.rs", "flasher.rs", "flipper.rs", "font.rs", "gate.rs", "generic.rs", "hittarget.rs", "kicker.rs", "light.rs", "lightsequencer.rs", "partgroup.rs", "plunger.rs", "primitive.rs", "ramp.rs", "reel.rs", "rubber.rs", "select.rs", "spinner.rs", "textbox.rs", "timer.rs", "trigger.rs", "wall.rs"]] + [V + "gameitem.rs"],
  [("element readers and writers", V + "gameitem.rs:150"), ("shared attributes", V + "gameitem/select.rs"), ("timer attributes", V + "gameitem/timer.rs")])
p("P04", "Elements tolerate missing, unknown and reordered records",
  "Reading an element from a stream in which records are missing, appear in another order, or carry tags this version does not know gives an element whose present fields have the values in the stream, whose missing fields have their documented defaults, and loses nothing that follows an unknown record.",
  ["inputs"], "every well-framed record stream of every element kind",
  "the tests read streams written by this version of the library or the few tables in testdata, so files from older and newer programs are not covered",
  [V + "gameitem.rs", V + "gameitem/", V + "biff.rs"], [("tag dispatch of the element readers", V + "gameitem/ball.rs:230"), ("record skipping", V + "biff.rs:414")])
p("P05", "Table settings survive being written and read",
  "Writing the table-wide settings and reading them back gives equal settings: camera views, physics, editor options, script text with its encoding, materials, render probes, collections and colours, for every value, each record written only in the circumstances the format prescribes for the table's version.",
  ["inputs"], "every table-settings value whose strings and quantised material values the format can represent",
  "three unit tests with the default and one random value; most optional records are never written by them",
  [V + "gamedata.rs", V + "material.rs", V + "renderprobe.rs"], [("settings reader and writer", V + "gamedata.rs:1000"), ("materials", V + "material.rs"), ("render probes", V + "renderprobe.rs")])
p("P06", "Images, sounds, fonts, collections and info records survive a round trip",
  "Writing an image, sound, font, collection, table-info or custom-info record and reading it back gives an equal value, whether the media is embedded as a file, linked, or stored as raw pixels or raw PCM; lengths and flags are written so that any other reader finds the next field.",
  ["inputs"], "every value the format can represent, every data length",
  "one test per record with small constant data",
  [V + "image.rs", V + "sound.rs", V + "font.rs", V + "collection.rs", V + "custominfotags.rs", V + "tableinfo.rs"],
  [("image stream", V + "image.rs"), ("sound stream", V + "sound.rs"), ("font stream", V + "font.rs"), ("collection stream", V + "collection.rs"), ("custom info tags", V + "custominfotags.rs")])
p("P07", "Colours, versions and quantised numbers convert without drift",
  "A colour read from its 32-bit form or its hexadecimal text writes back the same 32 bits or text with each channel in its place; a file version converts to and from its text and byte forms and orders numerically; a value stored in eight or fewer bits dequantises to the number whose quantisation is the stored byte again.",
  ["inputs"], "all 2^32 colours, all 2^32 versions, all stored bytes for every bit width, all floats for quantisation",
  "tests check a handful of colours and versions and a few quantised values",
  [V + "color.rs", V + "version.rs", V + "math/quantize.rs"], [("colour conversions", V + "color.rs"), ("version conversions", V + "version.rs"), ("quantiser", V + "math/quantize.rs")])
p("P08", "Bitmaps survive compression and pixel reordering",
  "Compressing pixel data and decompressing it gives the same bytes for every image size, the compressed stream ends exactly where the format says so that the record after it is found, and converting between the two channel orders twice is the identity and touches nothing but the two channels.",
  ["inputs"], "every pixel buffer, every width and height",
  "tests compress one or two small buffers",
  [V + "lzw.rs", V + "image.rs", V + "expanded/images.rs"], [("LZW stream", V + "lzw.rs"), ("channel swap", V + "image.rs")])
p("P09", "Sounds convert to and from WAV files without losing header fields or samples",
  "Writing a WAV header and reading it back gives equal fields for every format; extracting a sound to a WAV file and reading it back gives the same format fields and the same sample data.",
  ["inputs"], "every header value and every sample buffer",
  "two tests with one header each", [V + "wav.rs", V + "sound.rs"], [("WAV header", V + "wav.rs"), ("sound to file and back", V + "sound.rs")])
p("P10", "JSON form of every element keeps every field",
  "Converting any table element or drag point to its JSON form and back gives an equal element, except for the fields that are documented to live in separate files (an element's editor-layer attributes, a primitive's mesh and animation data); enum values keep their identity, finite numbers keep their value, and infinite and not-a-number values survive in the fields that allow them (light fade speeds, bumper ring drop offset, material elasticity, falloff, friction and scatter angle, full-single-screen background offset and scale).",
  ["inputs"], "every element value of every kind", "one or two samples per kind",
  [V + "gameitem/", V + "jsonmodel.rs", V + "json.rs", V + "color.rs"], [("JSON conversions", V + "gameitem/ball.rs"), ("float wrapper", V + "json.rs")])
p("P11", "A table's parts keep their order, count and identity in the file container",
  "Writing a whole table and reading it back gives the same elements, images, sounds, fonts and collections in the same order, with counts equal to the lists; adding or replacing a part changes only that part; the stored signature verifies on every written file and fails after a change to signed content.",
  ["inputs", "histories"], "every table, every sequence of add and replace operations", "tests write small hand-made tables",
  [V + "mod.rs"], [("whole-table reader and writer", V + "mod.rs"), ("signature", V + "mod.rs")])
p("P12", "Extracting a table to a directory and assembling it again loses nothing",
  "Extracting any table (whose plain numbers are finite and whose parts refer to each other consistently) to a directory tree and assembling it again gives an equal table: distinct parts get distinct file names whatever characters or letter case their names use, and order and contents are kept.",
  ["inputs"], "every table, every set of part names", "integration tests run on tables in testdata whose names rarely collide",
  [V + "expanded/", "src/filesystem.rs"], [("extract and assemble", V + "expanded/mod.rs"), ("unique file names", V + "expanded/images.rs")])
p("P13", "Primitive meshes keep their vertices, indices and animation frames",
  "Packing a mesh's vertices, normals, texture coordinates and indices into the table's compressed form and unpacking it gives the same bytes, with 16-bit or 32-bit indices chosen by vertex count and every index kept; the declared byte lengths equal the actual ones.",
  ["inputs"], "every vertex and index list, around and beyond the 16-bit limit", "tests use the meshes of a few tables",
  [V + "gameitem/primitive.rs", V + "mesh/mod.rs", V + "expanded/primitives.rs", V + "model.rs", V + "obj.rs"], [("mesh codec", V + "expanded/primitives.rs"), ("vertex layout", V + "model.rs:1")])
p("P14", "Generated meshes and exports match the game's geometry",
  "Meshes generated for walls, ramps, rubbers and other elements, and the exported OBJ and glTF scenes, describe the same geometry as the game: valid indices, unit normals, correct transforms.",
  ["inputs"], "every element shape", "snapshot tests on a few shapes",
  [V + "mesh/", V + "export/", V + "math/"], [("mesh generators", V + "mesh/"), ("exporters", V + "export/")])
NA = {
 "P14": "floating-point geometry (trigonometry, splines, normalisation): the deductive verifier treats float arithmetic as uninterpreted, so no contract within reach can state or decide geometric correctness",
}
TECH = "contract-based deductive verification (Verus on functions extracted from /repo each run)"
def main():
    root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    checks = []
    na = []
    for x in P:
        i = x["id"]
        if i in jobs.PROPS:
            s = jobs.PROPS[i]
            checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick python3 vc/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 vc/check.py {i}",
                           "technique": s.get("technique", TECH), "level": s.get("level", "proof"), "level_note": s["note"]})
        else:
            na.append({"property": i, "reason": NA.get(i, "not built yet: the contracts for these functions are still being written")})
    json.dump({"version": 1, "setup_cmd": "python3 vc/setup.py", "checks": checks, "not_applicable": na,
               "notes": "each check extracts the functions it needs from /repo's working tree, verifies them with Verus and replays concrete cases on the real crate"},
              open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
main()
