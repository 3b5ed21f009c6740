#!/usr/bin/env python3
"""Development aid: turns bug descriptions into seeded/<id>/ after confirming them in a scratch copy.
usage: plant.py bugs.py [id...]   bugs.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]"""
import json, os, re, subprocess, sys
SCR = "/tmp/plant/scr"
SEED = "/verif/seeded"
DEMO = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo.sh")).read()
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")

def sh(cmd, cwd=SCR, timeout=900, env=ENV):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)

ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
for b in ns["BUGS"]:
    if want and b["id"] not in want: continue
    sh("git checkout -q -- . && git clean -fdq rstar && git reset -q --hard $(git -C /repo rev-parse HEAD)")
    ok = True
    for f, old, new in b["edits"]:
        p = f"{SCR}/rstar/src/{f}"
        s = open(p).read()
        if s.count(old) != 1 and not b.get("first"):
            print(b["id"], f"EDIT: {s.count(old)} matches in {f}: {old[:60]!r}"); ok = False; break
        s = s.replace(old, new, 1)
        open(p, "w").write(s)
    if not ok: continue
    diff = sh("git diff").stdout
    t = sh("rm -rf target/debug/.fingerprint/rstar-*; CARGO_TARGET_DIR=/tmp/plant/scr/target timeout 600 cargo test -p rstar --all-features --no-fail-fast --offline -- --test-threads 8")
    failed = re.findall(r"^test (.+?) \.\.\. FAILED", t.stdout, re.M)
    passed = re.findall(r"^test (.+?) \.\.\. ok", t.stdout, re.M)
    if failed or len(passed) < len(stable) or t.returncode:
        print(b["id"], "TESTS:", len(passed), "of", len(stable), "failed", failed[:6], t.stderr[-700:] if not failed else ""); continue
    d = f"{SEED}/{b['id']}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write(DEMO); os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.rs", "w").write(b["demo"].strip() + "\n")
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    good = sh(f"bash {d}/demo.sh", cwd="/repo", env=dict(os.environ))
    bad = sh(f"bash {d}/demo.sh", cwd=SCR, env=dict(os.environ))
    if good.returncode != 0 or bad.returncode == 0 or "error" in bad.stderr.split("panicked")[0][:300]:
        print(b["id"], "DEMO: unchanged", good.returncode, good.stderr[-600:], "patched", bad.returncode, bad.stderr[-600:])
        subprocess.run(["rm", "-rf", d])
        continue
    print(b["id"], "planted;", bad.stderr.strip().split("\n")[-2 if len(bad.stderr.strip().split(chr(10))) > 1 else -1][:150])
