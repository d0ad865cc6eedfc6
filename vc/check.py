#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree.

1. extracts the functions the property depends on from /repo (tools/extract), adds the committed contracts and lets
   Verus discharge every obligation;
2. runs the replay harness (replay/src/bin/<property>.rs) on the real crate: it validates what the proof assumes,
   covers the functions outside the verifier's reach (bounded), and turns a failed obligation into a failing input."""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vc
import jobs

VERIF, REPO, BUILD = vc.VERIF, vc.REPO, vc.BUILD
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

# messages of the verifier that mean "this obligation does not hold or could not be shown"; everything else
# (compile errors, unsupported constructs, resource limits) leaves the obligation undecided
SEMANTIC = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
            "possible arithmetic", "possible division", "decreases not satisfied", "unable to prove", "cannot prove",
            "possible bit shift", "possible overflow", "unreachable", "recommendation not met", "constructed value may fail",
            "requires not satisfied", "loop must have a decreases", "at the end of the loop body", "might not")


def cargo_env():
    e = vc.env()
    e.update(CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    e.pop("CARGO_TARGET_DIR", None)
    return e


def build_replay(bin_):
    """builds the harness against /repo; the dependency artefacts of the ordinary build (git-ignored) are reused"""
    tgt = os.environ.get("VPIN_REPLAY_TARGET") or os.path.join(REPO, "target")
    lock = os.path.join(REPO, "Cargo.lock")
    work = os.path.join(BUILD, "replay-src")
    if os.path.isdir(work):
        shutil.rmtree(work)
    shutil.copytree(os.path.join(VERIF, "replay"), work)
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(work, "Cargo.lock"))
    if REPO != "/repo":
        p = os.path.join(work, "Cargo.toml")
        s = open(p).read().replace('path = "/repo"', 'path = "%s"' % REPO)
        open(p, "w").write(s)
        for q in os.listdir(os.path.join(work, "src", "bin")):
            q = os.path.join(work, "src", "bin", q)
            s = open(q).read().replace('path = "/repo/', 'path = "%s/' % REPO)
            open(q, "w").write(s)
    for attempt in (tgt, os.path.join(BUILD, "replay")):
        e = cargo_env()
        e["CARGO_TARGET_DIR"] = attempt
        try:
            r = subprocess.run(["cargo", "build", "--profile", "test", "--offline", "--bin", bin_], cwd=work, env=e,
                               capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            return None, "harness build timed out"
        if r.returncode == 0:
            return os.path.join(attempt, "debug", bin_), ""
        err = r.stderr[-3000:]
        if "error[E" in err or "could not compile `replay`" in err or "could not compile `vpin`" in err:
            return None, err
    return None, err


def limits():
    import resource
    g = 12 << 30
    resource.setrlimit(resource.RLIMIT_AS, (g, g))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_replay(exe, prop, bin_):
    scratch = os.path.join(BUILD, "scratch-" + prop)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    progress = os.path.join(scratch, "progress")
    scale = "1" if TIER == "quick" else "12"
    e = cargo_env()
    e.update(TMPDIR=scratch, HOME=scratch, RUST_BACKTRACE="0", RUST_LOG="off")
    t0 = time.time()
    fails, oks, note = [], [], ""
    try:
        r = subprocess.run([exe, "run", str(SEED), scale, progress], capture_output=True, text=True, errors="replace",
                           timeout=300 if TIER == "quick" else 3000, cwd=scratch, env=e, preexec_fn=limits)
        out, rc = r.stdout, r.returncode
        err = r.stderr
    except subprocess.TimeoutExpired as x:
        out, rc, err = (x.stdout or b"").decode(errors="replace"), "timeout", ""
    for l in out.split("\n"):
        if l.startswith("{"):
            try:
                j = json.loads(l)
            except ValueError:
                continue
            (fails if "fail" in j else oks).append(j)
    if rc not in (0, 1) and not fails:
        at = open(progress).read() if os.path.exists(progress) else "?"
        why = "does not terminate (over the harness's time limit)" if rc == "timeout" else f"ends the process (exit status {rc})"
        fails.append({"check": at, "cases": 0, "fail": -1, "detail": f"the code under test {why} in `{at}`: {err[-600:]}"})
    shutil.rmtree(scratch, ignore_errors=True)
    return {"fails": fails, "oks": oks, "wall": time.time() - t0, "exe": exe}


def replays(prop, bins):
    """the first harness uses the public API only; a further one may also compile single source files of /repo"""
    all_, err = None, ""
    for b in bins:
        exe, e = build_replay(b)
        if not exe:
            err += f"{b}: {e}"
            continue
        r = run_replay(exe, prop, b)
        for f in r["fails"]:
            f["exe"] = exe
        if all_ is None:
            all_ = r
        else:
            all_["fails"] += r["fails"]
            all_["oks"] += r["oks"]
            all_["wall"] += r["wall"]
    return all_, err


def classify(job, g, res):
    """-> list of (name, kind, message, where) for everything not discharged"""
    bad = []
    for fn, msg in getattr(g, "aside", {}).items():
        bad.append(("fn " + fn, "undecided", "outside the verifier's reach: " + msg[:300], ""))
    for m in g.missing:
        bad.append((m, "undecided", "not extracted: " + m, ""))
    if res.get("status") == "timeout":
        bad.append((job, "undecided", "verifier time limit", ""))
        return bad
    for d in res["diags"]:
        if d.get("level") != "error" or d["message"].startswith("aborting due to"):
            continue
        msg = d["message"]
        owner, line = None, None
        spans = d.get("spans", [])
        for sp in sorted(spans, key=lambda s: not s.get("is_primary")):
            o = g.owner.get(sp["line_start"])
            if o and (owner is None or (owner[0] != "fn" and o[0] == "fn")):
                owner, line = o, sp["line_start"]
        kind = "failed" if d.get("code") is None and any(s in msg for s in SEMANTIC) else "undecided"
        txt = " / ".join(f"{(sp.get('label') or '').strip()}: {g.lines[sp['line_start'] - 1].strip()[:160]}" for sp in spans
                         if sp["line_start"] <= len(g.lines))
        name = f"{owner[0]} {owner[1]}" if owner else job
        bad.append((name, kind, msg[:400], txt[:700]))
    if not res.get("success") and not bad:
        bad.append((job, "undecided", "verifier failed: " + res.get("stderr", "")[-800:], ""))
    return bad


def fn_times(res):
    out = []
    for m in res.get("json", {}).get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            out.append((f.get("function"), f.get("time", 0), f.get("success", True)))
    return out


def prove(prop):
    t0 = time.time()
    out = {"verified": 0, "errors": 0, "bad": [], "fns": [], "externals": [], "jobs": [], "smt_ms": 0, "notes": [], "cmds": []}
    try:
        vc.extractor()
    except Exception as x:
        out["bad"].append(("extractor", "undecided", str(x)[:600], ""))
        return out
    names = jobs.PROPS[prop]["jobs"]

    def one(name):
        try:
            g, res = jobs.run(name, TIER)
            return name, g, res, classify(name, g, res)
        except Exception as x:
            return name, None, None, [(name, "undecided", f"{type(x).__name__}: {x}"[:600], "")]

    with cf.ThreadPoolExecutor(max_workers=jobs.WORKERS) as ex:
        for name, g, res, bad in ex.map(one, names):
            out["bad"] += [(f"{name}: {b[0]}",) + tuple(b[1:]) for b in bad]
            if g is None:
                continue
            out["verified"] += res["verified"]
            out["errors"] += res["errors"]
            out["fns"] += [f for f in g.fns if f not in out["fns"]]
            out["externals"] += [f for f in g.externals if f not in out["externals"]]
            out["notes"] += g.notes
            out["cmds"].append(res.get("cmd", ""))
            smt = res.get("json", {}).get("times-ms", {}).get("smt", {}).get("total", 0)
            out["smt_ms"] += smt
            out["jobs"].append({"job": name, "obligations": res["verified"] + res["errors"], "discharged": res["verified"],
                                "smt_ms": smt, "wall_s": round(res["wall"], 1)})
            if res["verified"] == 0 and not bad:
                out["bad"].append((name, "undecided", "no obligation was generated", ""))
    out["wall"] = time.time() - t0
    return out


def known_findings(prop):
    """lines `known: property=<id> check=<name> <what fails>` (a `fixed:` line suppresses nothing)"""
    import re
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) check=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append({"check": m.group(2), "what": m.group(3)})
    return out


def main():
    prop = sys.argv[1]
    spec = jobs.PROPS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    bin_ = spec["replay"]
    with cf.ThreadPoolExecutor(max_workers=2) as ex:
        fp = ex.submit(prove, prop) if spec.get("jobs") else None
        fb = ex.submit(replays, prop, [bin_] if isinstance(bin_, str) else bin_)
        rep, berr = fb.result()
        pr = fp.result() if fp else {"verified": 0, "errors": 0, "bad": [], "fns": [], "externals": [], "jobs": [],
                                     "smt_ms": 0, "notes": [], "cmds": []}
    import re
    scope = re.compile(spec.get("scope", "."))
    failed = [b for b in pr["bad"] if b[1] == "failed" and scope.search(b[0])]
    undecided = [b for b in pr["bad"] if b[1] == "undecided"]
    fails = rep["fails"] if rep else []
    known = known_findings(prop)
    new = []
    for f in fails:
        k = next((k for k in known if k["check"] == f["check"]), None)
        if k:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            new.append(f)
    rc = 0
    replay_path = os.path.join(ev_dir, f"{prop}.replay.json")
    if os.path.exists(replay_path):
        os.remove(replay_path)
    ob = [{"obligation": b[0], "message": b[2], "at": b[3], "verdict": b[1]} for b in failed + undecided]
    if new:
        rc = 1
        f = new[0]
        json.dump({"property": prop, "failing_inputs": new, "seed": SEED, "failed_obligations": ob,
                   "rerun": f"{f['exe']} one {f['check']} {SEED} {f['fail']}"}, open(replay_path, "w"), indent=1)
        print(f"failing input in `{f['check']}` case {f['fail']}: {f['detail'][:1200]}")
        for b in failed[:5]:
            print(f"failed obligation: {b[0]}: {b[2]}")
        print(f"VIOLATION property={prop} replay={replay_path}")
    elif failed:
        rc = 1
        json.dump({"property": prop, "failing_inputs": [], "seed": SEED, "failed_obligations": ob,
                   "verifier_commands": pr["cmds"]}, open(replay_path, "w"), indent=1)
        for b in failed[:8]:
            print(f"failed obligation: {b[0]}: {b[2]} | {b[3]}")
        print(f"VIOLATION property={prop} replay={replay_path} no-failing-input-found")
    for b in undecided[:10]:
        print(f"UNDECIDED obligation {b[0]}: {b[2][:300]} {b[3][:200]}")
    if berr:
        print("UNDECIDED replay harness: " + berr[-600:])
    cases = sum(o["cases"] for o in (rep["oks"] + rep["fails"])) if rep else 0
    nob = pr["verified"] + pr["errors"]
    trusted = list(jobs.TRUSTED) + list(spec.get("trusted", [])) + [f"assumed contract: {x}" for x in pr["externals"]]
    level = spec.get("level", "proof")
    cov = {
        "evaluations": cases,
        "distinct_nontrivial": cases,
        "rule": "replay harness: each case draws fresh values from splitmix64(VERIF_SEED, check, case); every case runs the real crate and compares with the independent format oracle",
        "samples": [{"check": o["check"], "cases": o["cases"], "ms": o.get("ms")} for o in (rep["oks"] if rep else [])],
        "obligations": nob, "discharged": pr["verified"],
        "checker_cmd": pr["cmds"][0] if pr["cmds"] else "",
        "trusted_base": trusted,
        "explanation": json.dumps({"functions_under_contract": pr["fns"], "assumed_contracts": pr["externals"],
                                   "solver_ms": pr["smt_ms"], "back_end": "Verus (Z3)", "jobs": pr["jobs"],
                                   "extraction_notes": sorted(set(pr["notes"])),
                                   "bounded": spec.get("bounded", []), "undecided": ob}),
    }
    json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
               "assumptions": trusted, "wall_s": round(time.time() - t0, 1), "violations": len(new) + (0 if new else len(failed))},
              open(os.path.join(ev_dir, f"{prop}.json"), "w"), indent=1)
    print(f"{prop}: {pr['verified']}/{nob} obligations discharged, {len(pr['fns'])} functions under contract, "
          f"{cases} replayed cases, {time.time() - t0:.0f} s")
    sys.exit(rc)


if __name__ == "__main__":
    main()
