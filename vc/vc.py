"""Assembles the Verus input from code extracted from /repo on this run plus the committed contracts,
runs Verus and reports named obligations (one per function / lemma)."""
import json, os, re, subprocess, sys, hashlib, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VPIN_REPO", "/repo")
BUILD = os.environ.get("VPIN_BUILD", os.path.join(VERIF, ".build"))
KEEP_MODS = ["nom"]
DROP_MACROS = ["warn", "info", "debug", "trace", "error", "println", "eprintln", "debug_assert", "debug_assert_eq", "instrument"]
RENAMES = {
    "to_le_bytes": "v_to_le_bytes", "is_nan": "v_is_nan", "to_string": "v_to_string",
    "to_usize": "v_to_usize", "as_deref": "v_as_deref", "into": "v_into", "to_vec": "v_to_vec",
    "to_owned": "v_to_owned", "clone_into": "v_clone_into", "into_bytes": "v_into_bytes",
    "chunks_exact": "v_chunks_exact", "next_multiple_of": "v_next_multiple_of", "encode_utf16": "v_encode_utf16", "is_multiple_of": "v_is_multiple_of",
}
PATHS = {"String::from_utf8": "v_string_from_utf8", "String::from_utf16": "v_string_from_utf16", "u16::from_le_bytes": "v_u16_from_le", "u32::from_le_bytes": "v_u32_from_le"}
MACRO_FILES = ["src/vpx/gameitem/select.rs"]


def env():
    e = dict(os.environ)
    e.update(HOME="/root", PATH="/root/.cargo/bin:" + e.get("PATH", ""), CARGO_NET_OFFLINE="true",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    e.pop("RUSTFLAGS", None)
    return e


def extractor():
    tgt = os.path.join(BUILD, "extract")
    exe = os.path.join(tgt, "release", "extract")
    src = os.path.join(VERIF, "tools/extract/src/main.rs")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        e = env()
        e["CARGO_TARGET_DIR"] = tgt
        r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "tools/extract"),
                           env=e, capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError("extractor build failed: " + r.stderr[-2000:])
    return exe


class Contract:
    def __init__(self, key):
        self.key = key
        self.spec = ""
        self.ret = "r"
        self.loops = {}
        self.loop_start = {}
        self.after_loop = {}
        self.start = ""
        self.post = ""
        self.external = False
        self.broadcast = None  # overrides the module's broadcast groups
        self.ghost = None      # variable name that triggers ghost_after
        self.after = None      # callable(method, lit, text) -> str
        self.attrs = ""
        self.file = None
        self.rename = None
        self.source = None     # key of the function to take from the extraction, when it differs from the contract's key
        self.isolate = None
        self.chunk = None      # (list of hook lists) -> number: a run of isolated statements is moved into a function of
        self.outline = None    # its own, and (number, text) -> (function, call) gives that function and the call left in its place
        self.chunk_size = 12
        self.around = None     # (hooks) -> number, for a statement that writes records and is not isolated
        self.keeps = lambda stmt: True   # statements that stay in the function
        self.arms = None
        self.transform = None  # callable(body) -> body; must be listed in DESIGN
        self.sigsubst = []     # the same on the signature
        self.free = None       # (name, type): emit as a free function with Self replaced
        self.impl_as = None    # emit in `impl <this>` (a blanket impl's method, for one type)
        self.before_loop = {}
        self.loop_end = {}
        self.subst = []        # textual (regex, repl) applied to the body; must be listed in DESIGN


class Module:
    """contracts for one source file"""
    def __init__(self, name, file):
        self.name, self.file = name, file
        self.items = []          # "struct X", "enum Y", "const Z"
        self.contracts = {}      # key -> Contract
        self.extra = ""          # spec/proof text placed after the extracted items
        self.noinline = []
        self.broadcast = "vpin_base, vpin_str, vpin_seq"
        self.item_attrs = {}
        self.item_subst = []
        self.item_reduce = {}    # item -> (kept fields, type of the rest)
        self.mangle = {}         # "mod::fn" -> name, for functions of one name in several files


def parse_vc(path):
    """text contract file -> Module"""
    mod, cur, sect, buf = None, None, None, []

    def flush():
        nonlocal buf
        text = "\n".join(buf).strip("\n")
        buf = []
        if mod is None or sect is None or not text:
            return
        if sect == "extra":
            mod.extra += text + "\n"
        elif cur is None:
            return
        elif sect == "spec":
            cur.spec += text
        elif sect == "start":
            cur.start += text
        elif sect == "post":
            cur.post += text
        elif sect.startswith("loop_end"):
            cur.loop_end[int(sect.split()[1])] = text
        elif sect.startswith("before_loop"):
            cur.before_loop[int(sect.split()[1])] = text
        elif sect.startswith("loop_start"):
            cur.loop_start[int(sect.split()[1])] = text
        elif sect.startswith("after_loop"):
            cur.after_loop[int(sect.split()[1])] = text
        elif sect.startswith("loop"):
            cur.loops[int(sect.split()[1])] = text

    for line in open(path):
        line = line.rstrip("\n")
        if line.startswith("@@"):
            flush()
            w = line[2:].split(None, 1)
            cmd, arg = w[0], (w[1].strip() if len(w) > 1 else "")
            if cmd == "module":
                mod = Module(*[None if a == "-" else a for a in arg.split()])
                sect = None
            elif cmd == "item":
                mod.items.append(arg)
                sect = None
            elif cmd == "itemattr":
                k, v = arg.split("=>", 1)
                mod.item_attrs[k.strip()] = v.strip()
            elif cmd == "itemreduce":
                w2 = arg.split()
                mod.item_reduce[" ".join(w2[:2])] = (w2[2].split(","), w2[3])
            elif cmd == "mangle":
                a, b = arg.split("=>", 1)
                mod.mangle[a.strip()] = b.strip()
            elif cmd == "sigsubst":
                a, b = arg.split("=>", 1)
                cur.sigsubst.append((a.strip(), b.strip()))
            elif cmd == "itemsubst":
                mod.item_subst.append(arg.split("=>", 1))
            elif cmd == "fn":
                cur = Contract(arg)
                mod.contracts[arg] = cur
                sect = "spec"
            elif cmd == "ret":
                cur.ret = arg
            elif cmd == "external":
                cur.external = True
            elif cmd == "attrs":
                cur.attrs = arg
            elif cmd == "ghost":
                cur.ghost = arg
            elif cmd == "rename":
                cur.rename = arg
            elif cmd == "free":
                cur.free = arg.split(None, 1)
            elif cmd == "implas":
                cur.impl_as = arg
            elif cmd == "subst":
                a, b = arg.split("=>", 1)
                cur.subst.append((a.strip(), b.strip()))
            elif cmd == "broadcast":
                mod.broadcast = arg
            elif cmd == "noinline":
                mod.noinline.append(arg)
            elif cmd in ("start", "post", "extra", "spec"):
                sect = cmd
            elif cmd in ("loop", "loop_start", "after_loop", "loop_end", "before_loop"):
                sect = cmd + " " + arg
            else:
                raise ValueError("bad directive " + line)
        else:
            buf.append(line)
    flush()
    return mod


def extract(modules):
    cfg = {"repo": REPO, "keep_mods": KEEP_MODS, "drop_macros": DROP_MACROS, "rename_methods": RENAMES,
           "rename_paths": PATHS, "macro_files": MACRO_FILES,
           "specialise": {"src/vpx/biff.rs": ["write_tagged", "write_tagged_with", "write_tagged_without_size"]}, "modules": []}
    for m in modules:
        cfg["modules"].append({
            "file": m.file, "known": [c.source or k for k, c in m.contracts.items()] + list(m.items), "noinline": m.noinline, "mangle": m.mangle,
            "ghost_fns": {c.source or k: c.ghost for k, c in m.contracts.items() if c.ghost},
        })
    cfg["modules"] = [c for c in cfg["modules"] if c["file"]]
    r = subprocess.run([extractor()], input=json.dumps(cfg), capture_output=True, text=True, env=env())
    if r.returncode != 0:
        raise RuntimeError("extractor failed: " + r.stderr[-2000:])
    got = iter(json.loads(r.stdout)["modules"])
    return [next(got) if m.file else {"items": [], "fns": []} for m in modules]


def place_loops(body, contract):
    # invariants go between the loop header and its '{'
    out = body
    for m in list(re.finditer(r'__loop!\((\d+)usize\);|__loop!\((\d+)\);', body)):
        n = int(m.group(1) or m.group(2))
        mark = m.group(0)
        i = out.index(mark)
        j = out.rindex("{", 0, i)
        inv = contract.loops.get(n, "") if contract else ""
        head = out[:j]
        if inv.lstrip().startswith("iter "):
            inv = inv.lstrip()
            name, inv = inv.split("\n", 1)
            name = name.split()[1]
            k = head.rindex("for ")
            head = head[:k] + re.sub(r"^for (.*?) in ", r"for \1 in %s: " % name, head[k:], count=1, flags=re.S)
        ls = contract.loop_start.get(n, "") if contract else ""
        tail = out[i + len(mark):]
        al = contract.after_loop.get(n, "") if contract else ""
        le = contract.loop_end.get(n, "") if contract else ""
        if al or le:
            depth = 1
            k = 0
            while depth:
                ch = tail[k]
                depth += {"{": 1, "}": -1}.get(ch, 0)
                k += 1
            tail = tail[:k - 1] + (";\n" + le if le else "") + "}\n" + al + "\n" + tail[k:]
        bl = contract.before_loop.get(n, "") if contract else ""
        if bl:
            # the loop header starts at the last `for`/`while`/`loop` keyword (with its label) before the brace
            k = max(head.rfind(w) for w in ("for ", "while ", "loop ", "loop"))
            lab = re.search(r"'\w+\s*:\s*$", head[:k])
            if lab:
                k = lab.start()
            head = head[:k] + bl + "\n" + head[k:]
        out = head.rstrip() + "\n" + inv + "\n{" + ls + tail
    return out


def place_after(body, contract):
    def rep(m):
        n, meth, lit, full = int(m.group(1)), json.loads(m.group(2)), json.loads(m.group(3)), json.loads(m.group(4))
        if contract.after is None:
            return ""
        return contract.after(n, meth, lit, full) or ""
    return re.sub(r'__after!\(\s*(\d+)(?:usize)?\s*,\s*("(?:[^"\\]|\\.)*")\s*,\s*("(?:[^"\\]|\\.)*")\s*,\s*("(?:[^"\\]|\\.)*")\s*\);', rep, body)


def unzip(body):
    """`for (a, b) in X.iter().zip(Y.iter())` -> the index loop it means (the verifier has no contract for zip)"""
    pat = r"for \((\w+), (\w+)\) in (\w+)\.iter\(\)\.zip\((\w+)(?:\.iter\(\))?\) \{\s*(__loop!\(\d+(?:usize)?\);)"
    return re.sub(pat, r"for __i in 0..v_min(\3.len(), \4.len()) {\n\5 let \1 = &\3[__i]; let \2 = &\4[__i];", body)


def top_statements(body):
    """splits the pretty-printed block `{ ... }` into its top-level statements (text, one per element)"""
    lines = body.strip().split("\n")
    assert lines[0].strip() == "{" and lines[-1].strip() == "}", body[:80]
    out = []
    for l in lines[1:-1]:
        if re.match(r"    [^\s})\].]", l) or not out:
            out.append(l)
        else:
            out[-1] += "\n" + l
    return out


def isolate(body, contract):
    """wraps each top-level statement (or new_tag..end_tag run) that writes records into a one-pass loop, so that the
    verifier checks it as an obligation of its own; `contract.isolate(hooks)` gives the loop's specification"""
    stmts = top_statements(body)
    pat = r'__after!\(\s*(\d+)(?:usize)?\s*,\s*("(?:[^"\\]|\\.)*")\s*,\s*("(?:[^"\\]|\\.)*")'
    out, i = [], 0
    run = []          # isolated groups not yet written out: (text, hooks)
    is_mark = lambda t: t.lstrip().startswith("__after!")

    def flush():
        if not run:
            return
        if contract.chunk is None:
            out.extend(t for t, _ in run)
        else:
            j = contract.chunk([h for _, h in run])
            inner = "\n".join(t for t, _ in run)
            out.append(f"/*@@OUT {j}*/\n{inner}\n/*@@END*/")
        run.clear()
    while i < len(stmts):
        j, hooks, opened = i, [], None
        while j < len(stmts):
            group_done = False
            for _, m, l in re.findall(pat, stmts[j]):
                m, l = json.loads(m).split("::")[-1], json.loads(l)
                hooks.append((m, l))
                if m == "new_tag":
                    opened = l
                elif m in ("end_tag", "end_tag_no_size"):
                    opened = None
            j += 1
            if opened is None and not (j < len(stmts) and is_mark(stmts[j])):
                break
        group = stmts[i:j]
        text = "\n".join(group)
        ok = hooks and not any(re.match(r"\s*let ", g) for g in group) and not any(m == "close" for m, _ in hooks) and "for " not in text and opened is None
        spec = contract.isolate(hooks) if ok else None
        if spec:
            pre, inv, start = spec
            run.append((f"    {pre}\n    loop\n{inv}\n    {{ {start}\n{text}\n    break;\n    }};", hooks))
            if len(run) == contract.chunk_size:
                flush()
        else:
            flush()
            j2 = contract.around(hooks) if contract.around and hooks and not any(m == "close" for m, _ in hooks) else None
            if j2 is not None:
                # the statements since the last record belong to this one, unless they bind names used further on
                back = []
                while out and not re.match(r"/\*@@OUT|    proof \{", out[-1]) and not contract.keeps(out[-1]):
                    back.insert(0, out.pop())
                rest = "\n".join(stmts[j:])
                names = [x for g in back + group for x in re.findall(r"^\s{0,4}let (?:mut )?(\w+)", g)]
                if any(re.search(r"\b%s\b" % x, re.sub(r"let (?:mut )?%s\b.*" % x, "", rest, flags=re.S)) for x in names):
                    out += back + group
                else:
                    group_text = "\n".join(back + group)
                    out.append(f"/*@@OUT {j2}*/\n{group_text}\n/*@@END*/")
            else:
                out += group
        i = j
    flush()
    return "{\n" + "\n".join(out) + "\n}"


def match_brace(t, i):
    """index just past the brace group opening at t[i] (string literals are skipped)"""
    d, n = 0, len(t)
    while i < n:
        ch = t[i]
        if ch == '"':
            i += 1
            while t[i] != '"':
                i += 2 if t[i] == "\\" else 1
        elif ch == "{":
            d += 1
        elif ch == "}":
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise ValueError("unbalanced braces")


def isolate_arms(body, arms):
    """wraps each arm of a record-tag dispatch `if tag_is(v, "A") {..} else if .. else {..}` into a one-pass loop, so
    that the verifier checks it as an obligation of its own; arms(var, lits, lit) gives the loop's specification"""
    out, pos = "", 0
    while True:
        m = re.compile(r'if tag_is\(\s*(\w+)\s*,\s*"(\w*)"\s*\) \{').search(body, pos)
        if not m:
            return out + body[pos:]
        var, chain, i = m.group(1), [], m.end() - 1
        lit = m.group(2)
        last = None
        while True:
            e = match_brace(body, i)
            chain.append((lit, i, e))
            k = re.compile(r'\s*else if tag_is\(\s*%s\s*,\s*"(\w*)"\s*\) \{' % var).match(body, e)
            if k:
                lit, i = k.group(1), k.end() - 1
                continue
            k = re.compile(r'\s*else \{').match(body, e)
            if k:
                i = k.end() - 1
                e2 = match_brace(body, i)
                chain.append((None, i, e2))
            last = chain[-1][2]
            break
        lits = [c[0] for c in chain if c[0] is not None]
        # a dispatch used as a value (its arms are expressions) cannot be wrapped
        stmt = re.match(r"\s*(;|\)|,|\.)", body[last:]) is None and re.search(r"(=|\(|,|return|!|&&|\|\|)\s*$", body[:m.start()]) is None
        cur = pos
        for lit, i, e in chain:
            inner = body[i + 1:e - 1]
            spec = arms(var, lits, lit) if stmt else None
            if spec and not re.search(r"\b(break|continue|return)\b", inner):
                inv, start, end = spec
                out += body[cur:i] + "{\n    loop\n" + inv + "\n    { " + start + inner.rstrip() + ("" if inner.rstrip()[-1:] in ("", ";", "}") else ";") + "\n" + end + "    break;\n    }\n}"
            else:
                out += body[cur:e]
            cur = e
        pos = last


def split_top(t, sep=","):
    out, d, cur, i = [], 0, "", 0
    while i < len(t):
        ch = t[i]
        if ch == '"':
            j = i + 1
            while t[j] != '"':
                j += 2 if t[j] == "\\" else 1
            cur += t[i:j + 1]
            i = j + 1
            continue
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        if ch == sep and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
        i += 1
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def default_skeleton(T, opt):
    """the Default body with the initialisers of the fields outside `opt` replaced by an arbitrary value"""
    def go(body):
        m = None
        for m in re.finditer(r"\b(Self|%s) \{" % T, body):
            pass
        if m is None:
            return body
        e = match_brace(body, m.end() - 1)
        fields = []
        lets = {k.group(1): k.group(2) for k in re.finditer(r"\blet (?:mut )?(\w+)(?:\s*:\s*[^=;]+)?\s*=\s*([^;]+);", body[:m.start()])}
        for f in split_top(body[m.end():e - 1]):
            k = re.match(r"(\w+)\s*(?::\s*(.*))?$", f, re.S)
            if k and k.group(1) in opt:
                v = (k.group(2) or k.group(1)).strip()
                v = lets.get(v, v).strip()
                if v in ("Default::default()", "Option::default()", "Option::None"):
                    v = "None" if opt[k.group(1)] == "Option" else "Vec::new()"
                if v in ("vec![]", "Vec::default()"):
                    v = "Vec::new()"
                if v.startswith("Some("):
                    v = "Some(v_any())"
                fields.append(f"{k.group(1)}: {v}")
            elif k:
                fields.append(f"{k.group(1)}: v_any()")
            else:
                fields.append("..v_any()")
        return "{ %s { %s } }" % (T, ", ".join(fields))
    return go


class Gen:
    """generated Verus file with a line -> obligation-owner map"""
    def __init__(self):
        self.lines = []
        self.owner = {}      # line -> (kind, name)
        self.missing = []
        self.notes = []
        self.fns = []        # functions under contract
        self.externals = []

    def add(self, text, owner=None):
        for l in text.split("\n"):
            self.lines.append(l)
            if owner:
                self.owner[len(self.lines)] = owner

    def text(self):
        return "\n".join(self.lines) + "\n"


def render(modules, extracted, nbase=0):
    """nbase: the first nbase modules form the layer already verified by another job: their functions appear with
    their contracts only (external_body) and, like the prelude, outside the root module that this run verifies"""
    g = Gen()
    prelude = open(os.path.join(HERE, "prelude.rs")).read().split("\n")
    heads = [l for l in prelude if l.startswith("#![")]
    for l in heads:
        g.add(l, ("prelude", "prelude.rs"))
    if nbase:
        g.add("pub mod base {")
    for l in prelude:
        if not l.startswith("#!["):
            g.add(l, ("prelude", "prelude.rs"))
    g.add("verus! {")
    for i, (m, ex) in enumerate(zip(modules, extracted)):
        if nbase and i == nbase:
            g.add("} // verus!")
            g.add("} // mod base")
            g.add("use vstd::prelude::*;\n#[allow(unused_imports)] use base::*;\nverus! {")
        render_module(g, m, ex, i < nbase)
    g.add("} // verus!")
    g.add("fn main() {}")
    return g


def reduce_struct(text, keep, rest):
    """a struct with only the named fields, the others in one opaque part"""
    k = text.index("{")
    fields = split_top(text[k + 1:text.rindex("}")])
    got = {}
    for f in fields:
        mm = re.match(r"\s*(?:pub(?:\s*\([^)]*\))?\s+)?(\w+)\s*:", f)
        if mm:
            got[mm.group(1)] = f.strip()
    return text[:k] + "{ " + ", ".join(got[x] for x in keep if x in got) + (f", pub rest: {rest}" if rest != "-" else "") + " }"


def render_module(g, m, ex, based):
    if m.file is None:
        for l in m.extra.split("\n"):
            g.add(l, ("lemma", m.name))
        return
    if ex.get("error"):
        g.missing.append(f"{m.file}: {ex['error']}")
        return
    if getattr(m, "fixups", None):
        m.fixups(m, ex)
    for u in getattr(m, "undecided", []):
        g.missing.append(f"{m.file}: {u}")
    g.add(f"// ==================== extracted from {m.file}")
    have = {f"{i['kind']} {i['name']}": i for i in ex["items"]}
    for it in m.items:
        if it not in have:
            g.missing.append(f"{m.file}: {it}")
            continue
        a = m.item_attrs.get(it, "")
        text = have[it]["text"]
        if it in m.item_reduce:
            text = reduce_struct(text, *m.item_reduce[it])
        for x, y in getattr(m, "item_subst", []):
            text = re.sub(x, y, text)
        if it.startswith("implconst "):
            text = "impl " + it[10:].split("::")[0] + " { " + text + " }"
        g.add((a + "\n" if a else "") + text, ("item", f"{m.file}::{it}"))
    fns = {}
    for f in ex["fns"]:
        fns.setdefault(f["key"], f)
        fns[f["full"]] = f
    for key, c in m.contracts.items():
        f = fns.get(c.source or key)
        if f is None:
            g.missing.append(f"{m.file}: fn {key}")
            continue
        for e in f["errors"]:
            g.missing.append(f"{m.file}: fn {key}: {e}")
        owner = ("fn", f"{m.file}::{key}")
        for nt in f["notes"]:
            g.notes.append(f"{key}: {nt}")
        body = f["body"]
        if c.isolate:
            body = isolate(body, c)
        if c.arms:
            body = isolate_arms(body, c.arms)
        if c.transform:
            body = c.transform(body)
        body = unzip(body)
        body = place_after(body, c)
        body = place_loops(body, c)
        body = re.sub(r"\b([A-Z]\w*)( \{[^{}]*\.\. ?)Default::default\(\)", r"\1\2\1::default()", body)
        for a, b in c.subst:
            body = re.sub(a, b, body)
        parts = []
        if c.outline:
            def move(mm):
                fn, call = c.outline(int(mm.group(1)), mm.group(2))
                parts.append(fn)
                return call
            body = re.sub(r"/\*@@OUT (\d+)\*/(.*?)/\*@@END\*/", move, body, flags=re.S)
        k = body.index("{")
        bc = m.broadcast if c.broadcast is None else c.broadcast
        body = "{\n" + (f"broadcast use {{{bc}}};\n" if bc else "") + c.start + "\n" + body[k + 1:]
        ret = f["ret"]
        if c.post:
            if ret:
                body = "{\nlet __ret = " + body + ";\nproof {\n" + c.post + "\n}\n__ret\n}"
            else:
                body = "{\n" + body + "\nproof {\n" + c.post + "\n}\n}"
        sig = f["sig"]
        where = f["where"] or ""
        for a, b in c.sigsubst:
            sig = re.sub(a, b, sig)
            where = re.sub(a, b, where)
            ret = re.sub(a, b, ret)
        if c.rename:
            sig = re.sub(r"\bfn\s+\w+", "fn " + c.rename, sig, count=1)
        if c.free:
            sig = re.sub(r"\bfn\s+\w+", "fn " + c.free[0], sig, count=1)
            sig = re.sub(r"\bSelf\b", c.free[1], sig)
            ret = re.sub(r"\bSelf\b", c.free[1], ret)
            body = re.sub(r"\bSelf\b", c.free[1], body)
        ind = "pub " + sig + (f" -> ({c.ret}: {ret})" if ret else "") + (" " + where if where and not c.impl_as else "")
        impl = f["impl"] and not c.free
        if impl:
            g.add(("impl " + c.impl_as if c.impl_as else f["impl"]) + " {", owner)
        attrs = c.attrs
        if c.external or based:
            attrs += " #[verifier::external_body]"
            body = "{ unimplemented!() }"
            if not based:
                g.externals.append(f"{m.file}::{key}")
        else:
            g.fns.append(f"{m.file}::{key}")
        if attrs:
            g.add(attrs, owner)
        g.add(ind, owner)
        if c.spec:
            g.add(c.spec, owner)
        g.add(body, owner)
        if impl:
            g.add("}", owner)
        for fn in parts if not (c.external or based) else []:
            g.add(fn, owner)
    g.add(f"// -------------------- specification and lemmas for {m.file}")
    for l in m.extra.split("\n"):
        if based:
            l = l.replace("/*opaque-in-client*/", "#[verifier::opaque]")
        g.add(l, ("lemma", m.name))


def run_verus(path, rlimit=30, threads=8, extra=(), timeout=800):
    t0 = time.time()
    cmd = ["verus", path, "--output-json", "--time", "--multiple-errors", "6", "--rlimit", str(rlimit), "--num-threads", str(threads),
           "--triggers-mode", "silent", *extra, "--", "--error-format=json"]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"status": "timeout", "cmd": " ".join(cmd), "wall": time.time() - t0, "diags": [], "verified": 0, "errors": 0}
    out = {"cmd": " ".join(cmd), "wall": time.time() - t0, "rc": r.returncode, "diags": [], "stderr": r.stderr, "stdout": r.stdout}
    try:
        j = json.loads(r.stdout[r.stdout.index("{"):])
    except Exception:
        j = {}
    out["json"] = j
    vr = j.get("verification-results", {})
    out["verified"] = vr.get("verified", 0)
    out["errors"] = vr.get("errors", 0)
    # (with --verify-root the summary's own "success" flag stays false: it speaks of the whole crate)
    out["success"] = r.returncode == 0 and out["errors"] == 0 and out["verified"] > 0
    out["vir_error"] = vr.get("encountered-vir-error", vr.get("encountered_vir_error"))
    for line in r.stderr.split("\n"):
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except Exception:
                continue
            out["diags"].append(d)
    return out


def show(g, res, limit=40):
    """human readable failures, for development"""
    n = 0
    for d in res["diags"]:
        if d.get("level") not in ("error",):
            continue
        n += 1
        if n > limit:
            break
        print("ERROR:", d["message"][:600])
        for sp in d.get("spans", []):
            ln = sp["line_start"]
            o = g.owner.get(ln)
            t = g.lines[ln - 1].strip()[:220] if ln <= len(g.lines) else ""
            print("    ", ln, o, "|", (sp.get("label") or "")[:100], "|", t)
    print("missing:", g.missing)
    print("verified", res["verified"], "errors", res["errors"], "success", res.get("success"), "wall %.1f" % res["wall"])
    if not res["diags"] and not res.get("success"):
        print(res.get("stderr", "")[-3000:])


if __name__ == "__main__":
    names = sys.argv[1:]
    mods = [parse_vc(os.path.join(HERE, n + ".vc")) for n in names if not n.startswith("-")]
    ex = extract(mods)
    g = render(mods, ex)
    out = os.path.join(BUILD, "vc")
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, "_".join(n for n in names if not n.startswith("-"))[:60] + ".rs")
    open(path, "w").write(g.text())
    res = run_verus(path, extra=[n for n in names if n.startswith("--verify")])
    show(g, res)
