#!/usr/bin/env python3
"""seed.py ID PROPERTY: turns the edits made in the scratch copy /tmp/seed/repo into /verif/seeded/ID, after checking that
they build, keep the stable tests passing, and that the demonstration (demo.rs, given on the command line) tells them apart.
usage: seed.py ID PROPERTY DEMO.rs 'needs' 'what it breaks'"""
import json, os, shutil, subprocess, sys, re
ID, PROP, DEMO, NEEDS, BREAKS = sys.argv[1:6]
S = "/tmp/seed/repo"
env = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
def sh(c, cwd=S, **k):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, capture_output=True, text=True, **k)
diff = sh("git diff HEAD").stdout
assert diff.strip(), "no change"
d = f"/verif/seeded/{ID}"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
shutil.copy(DEMO, d + "/demo.rs")
open(d + "/demo.sh", "w").write(open("/verif/tools/demo_template.sh").read())
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": BREAKS}, open(d + "/meta.json", "w"), indent=1)
base = json.load(open("/opt/vp/BASELINE.json"))
r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", timeout=900)
failed = set(re.findall(r"^test (\S+) \.\.\. FAILED", r.stdout, re.M))
okn = len(re.findall(r"^test .* \.\.\. ok", r.stdout, re.M))
print("tests ok", okn, "failed", failed, "rc", r.returncode)
if "error: could not compile" in r.stderr:
    print(r.stderr[-2000:]); sys.exit(1)
p = sh(f"bash {d}/demo.sh", timeout=300)
print("with patch: demo rc", p.returncode, (p.stdout + p.stderr)[-500:])
sh("git stash -q")
q = sh(f"bash {d}/demo.sh", timeout=300)
print("clean: demo rc", q.returncode, (q.stdout + q.stderr)[-500:])
sh("git stash drop -q")
good = q.returncode == 0 and p.returncode != 0 and not failed
print("KEEP" if good else "REJECT")
if not good:
    shutil.rmtree(d)
