#!/usr/bin/env python3
"""Development aid: applies seeded changes to /repo one by one, runs their property's check, and undoes them.
usage: catch.py [-a] [id...]   -a: every check, not only the property's own"""
import json, os, subprocess, sys, time
args = sys.argv[1:]
every = "-a" in args
seeds = [os.environ.get("VERIF_SEED", "1")]
ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir("/verif/seeded"))
assert subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout == ""
missed = []
for i in ids:
    d = f"/verif/seeded/{i}"
    p = json.load(open(f"{d}/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", f"{d}/patch.diff"], check=True)
    try:
        for q in ([f"C{k:02d}" for k in range(1, 27)] if every else [p]):
            t = time.time()
            r = subprocess.run(["python3", "/verif/check.py", q], capture_output=True, text=True, cwd="/verif")
            v = [x for x in r.stdout.split("\n") if x.startswith("  case") or "CHECK-ERROR" in x]
            print(f"{i:28} {q} rc={r.returncode} {time.time()-t:5.1f}s {(v or [''])[0][:170]}", flush=True)
            if q == p and r.returncode != 1: missed.append(i)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
print("missed:", missed)
