#!/usr/bin/env python3
"""Decides one property of rstar: check.py <property id> | check.py replay <file>

1. builds the conformance driver against /repo's working tree;
2. runs TLC on the property's design models (spec/*MC.cfg);
3. lets the driver execute histories on the real code and record every call with its results;
4. lets TLC decide (spec/Trace.tla) which recorded histories are behaviours of the specification.
Exit 0: held on everything explored; 1: VIOLATION; 2: the machinery failed.
"""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
CPUS = os.cpu_count() or 4
T0 = time.time()

from plan import PLAN  # property -> what to run


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


class ToolError(Exception):
    pass


# ---------------------------------------------------------------- driver
def build(scouting=False):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HERE, "harness", "target"), CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    env["PATH"] = env.get("PATH", "") + ":/root/.cargo/bin"
    # cargo judges freshness by time stamps; sources may change without newer ones
    h = hashlib.sha256()
    for top in ("/repo/rstar/src", os.path.join(HARNESS, "src")):
        for d, _, fs in sorted(os.walk(top)):
            for f in sorted(fs):
                h.update((os.path.join(d, f) + "\0").encode() + open(os.path.join(d, f), "rb").read() + b"\0")
    for f in ("/repo/rstar/Cargo.toml", os.path.join(HARNESS, "Cargo.toml")):
        h.update(open(f, "rb").read())
    stamp = os.path.join(env["CARGO_TARGET_DIR"], "sources.sha256")
    if not os.path.exists(stamp) or open(stamp).read() != h.hexdigest():
        for kind in ("debug", "scout"):
            fp = os.path.join(env["CARGO_TARGET_DIR"], kind, ".fingerprint")
            for d in os.listdir(fp) if os.path.isdir(fp) else []:
                if d.startswith("rstar-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        if os.path.exists(stamp):
            os.unlink(stamp)
    jobs = {"debug": []}
    if scouting:
        jobs["scout"] = ["--profile", "scout"] + (["--features", "few"] if TIER == "quick" else [])
    ps = {k: subprocess.Popen(["cargo", "build", "--offline", "--quiet", *a], cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True) for k, a in jobs.items()}
    for k, p in ps.items():
        err = p.communicate()[1]
        if p.returncode != 0:
            raise ToolError("the driver does not build:\n" + err[-3000:])
    open(stamp, "w").write(h.hexdigest())
    return {k: os.path.join(HARNESS, "target", k, "rstar-conform") for k in jobs}


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_driver(exe, args, out, work, tag, timeout):
    """One driver process.  Returns None, or the pending operation if it died inside a call."""
    err = open(os.path.join(work, f"{tag}.err"), "w")
    try:
        p = subprocess.run([exe, *args, "--out", out], stderr=err, preexec_fn=limits, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("driver timed out")
    return p.returncode


def whole_lines(path):
    good = []
    if os.path.exists(path):
        for ln in open(path, errors="replace"):
            if not ln.endswith("\n"):
                break
            good.append(ln)
    return good


def drive(exe, base, first, count, work, tag, timeout):
    """Runs cases first..first+count-1; a process death inside a call becomes an event of that call.
    -> (log lines, statistics of the scout)"""
    lines, at, end, deaths, stats = [], first, first + count, 0, []
    prog, st = os.path.join(work, f"{tag}.progress"), os.path.join(work, f"{tag}.stats")
    while at < end:
        out = os.path.join(work, f"{tag}-{at}.log")
        for f in (prog, st):
            if os.path.exists(f):
                os.unlink(f)
        rc = run_driver(exe, [*base, "--from", str(at), "--n", str(end - at), "--progress", prog, "--stats", st], out, work, tag, timeout)
        got = whole_lines(out)
        if os.path.exists(st):
            stats.append(json.load(open(st)))
        if rc == 0:
            lines += got
            os.unlink(out)
            break
        cur = int(open(prog).read()) if os.path.exists(prog) and os.path.getsize(prog) else at
        if rc != 3:  # crashed inside a call, or our own fault: repeat that case synchronously to find out
            while got and '"op":"Case"' not in got[-1]:
                got.pop()
            if got:
                got.pop()
            sync = os.path.join(work, f"{tag}.pending")
            if os.path.exists(sync):
                os.unlink(sync)
            plain = [x for i, x in enumerate(base) if x != "--keep" and (i == 0 or base[i - 1] != "--keep")]
            rc2 = run_driver(exe, plain + ["--from", str(cur), "--n", "1", "--sync", sync], out, work, tag, timeout)
            more = whole_lines(out)
            pend = open(sync).read() if os.path.exists(sync) else ""
            err = open(os.path.join(work, f"{tag}.err")).read()
            if rc2 in (0, 101) or not pend:
                raise ToolError(f"driver failed (rc {rc}, then {rc2}): " + err[-2000:])
            if rc2 != 3:
                e = json.loads(pend)
                e["panic"] = f"process died ({rc2}) {err[-300:]}"
                more.append(json.dumps(e) + "\n")
            got += more
        lines += got
        os.unlink(out)
        at = cur + 1
        deaths += 1
        if deaths >= 3:
            break
    return lines, stats


# ---------------------------------------------------------------- TLC
def tlc(module, cfg, work, tag, env=None, workers=CPUS, heap="6g", timeout=600, extra=()):
    meta = os.path.join(work, "md-" + tag)
    out = os.path.join(work, tag + ".out")
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(CPUS, workers)),
           "-Djava.io.tmpdir=" + work, "-cp", JARS, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg, *extra, module]
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})), timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    text = open(out).read()
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return rc, gen, dist, text


def validate(logfile, work, tag, verbose=False):
    env = {"LOG": logfile, "VERBOSE": "1" if verbose else "0"}
    rc, gen, dist, text = tlc("Trace.tla", "Trace.cfg", work, tag, env, timeout=800)
    if rc != 0:
        i = text.find("Error:")
        raise ToolError("TLC failed on a trace: " + text[i:i + 3000])
    done = {int(x) for x in re.findall(r'<<"DONE", (\d+)>>', text)}
    at = {}
    for c, l in re.findall(r'<<"AT", (\d+), (\d+)>>', text):
        at[int(c)] = max(int(l), at.get(int(c), 0))
    return done, at, gen, dist


def split_cases(lines):
    cases = []
    for ln in lines:
        if '"op":"Case"' in ln:
            cases.append([])
        cases[-1].append(ln)
    return cases


def judge(lines, work, tag):
    """-> (number of cases, cases accepted, [(case lines, index of the rejected line)], states, transitions)"""
    f = os.path.join(work, tag + ".ndjson")
    open(f, "w").writelines(lines)
    done, _, gen, dist = validate(f, work, tag)
    cases = split_cases(lines)
    start, bad = 1, []
    for c in cases:
        # a case that consists of its header only is a behaviour
        if start not in done and len(c) > 1:
            bad.append(c)
        start += len(c)
    rejected = []
    if bad:
        bad = bad[:60]
        g = os.path.join(work, tag + "-bad.ndjson")
        open(g, "w").writelines([x for c in bad for x in c])
        done2, at, _, _ = validate(g, work, tag + "-bad", verbose=True)
        start = 1
        for c in bad:
            if start in done2:
                raise ToolError("TLC gave two answers for one case")
            rejected.append((c, at.get(start, start) - start + 1))
            start += len(c)
    else:
        nev = sum(len(c) for c in cases)
        if dist != nev:
            raise ToolError(f"TLC consumed {dist} of {nev} events")
    os.unlink(f)
    return len(cases), len(cases) - len([1 for _ in bad]), rejected, dist, gen


# ---------------------------------------------------------------- design models
def design(prop, work):
    """Runs the TLC models of the property's algorithms and invariants."""
    res = []
    todo = PLAN[prop]["models"].get(TIER, PLAN[prop]["models"]["quick"])
    if not todo:
        return res

    def one(i, m):
        mod, cfg = m[0], m[1]
        expect = m[2] if len(m) > 2 else "ok"
        t = time.time()
        rc, gen, dist, text = tlc(mod, cfg, work, f"mc{i}-{os.path.splitext(cfg)[0]}", workers=max(2, CPUS // max(1, min(len(todo), 4))),
                                  heap="3g" if TIER == "quick" else "8g", timeout=500 if TIER == "quick" else 3000, extra=m[3] if len(m) > 3 else ())
        ok = rc == 0 if expect == "ok" else rc in (10, 12, 13)
        if not ok:
            k = text.find("Error:")
            raise ToolError(f"design model {mod} with {cfg}: expected {expect}, TLC exit {rc}\n{text[k:k + 3000]}")
        return {"module": mod, "config": cfg, "expected": expect, "states": dist, "transitions": gen, "seconds": round(time.time() - t, 1)}

    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, range(len(todo)), todo):
            res.append(r)
    return res


# ---------------------------------------------------------------- main
def op_line(ln):
    return json.loads(ln)


def classify(prop, case, idx):
    """Does the rejected line falsify the property?"""
    e = json.loads(case[idx])
    if prop == "C14":
        return "panic" in e
    return e.get("o", 0) == 1


def save_replay(prop, case, idx, n):
    d = os.path.join(HERE, "work", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{SEED}-{n}.ndjson")
    open(p, "w").writelines(case[:idx + 1])
    return p


def known(prop, case, idx):
    """Entries of known-findings.txt that describe this very history."""
    f = os.path.join(HERE, "known-findings.txt")
    sig = signature(case, idx)
    for ln in open(f) if os.path.exists(f) else []:
        m = re.match(r"finding: property=(\S+) signature=(\S+) (.*)", ln)
        if m and m[1] == prop and m[2] == sig:
            return m[3]
    return None


def signature(case, idx):
    keep = []
    for ln in case[:idx + 1]:
        e = json.loads(ln)
        keep.append({k: v for k, v in e.items() if k not in ("cid", "prop", "o")})
    return hashlib.sha256(json.dumps(keep, sort_keys=True).encode()).hexdigest()[:16]


def describe(ln):
    return ln if len(ln) < 400 else ln[:400] + "…"


def check(prop):
    work = os.path.join(HERE, "work", f"{prop}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    try:
        return check_in(prop, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check_in(prop, work):
    plan = PLAN[prop]
    t = plan.get(TIER, plan["quick"])
    exes = build(any("scout" in r for r in t["rounds"]))
    exe = exes["debug"]
    log("driver built")
    pool = cf.ThreadPoolExecutor(2)
    mc = pool.submit(design, prop, work)
    total = dict(cases=0, ok=0, states=0, trans=0, events=0, inconclusive=0)
    ops, cfgs, samples, viol, kn = {}, {}, [], [], []
    inconcl, scouted = {}, {}

    def absorb(lines, tag):
        if not lines:
            return
        n, ok, rej, st, tr = judge(lines, work, tag)
        total["cases"] += n; total["ok"] += ok; total["states"] += st; total["trans"] += tr
        for ln in lines:
            total["events"] += 1
            m = re.search(r'"op":"(\w+)"', ln)
            ops[m[1]] = ops.get(m[1], 0) + 1
            if m[1] == "Case":
                c = re.search(r'"cfg":"([^"]+)"', ln)[1]
                cfgs[c] = cfgs.get(c, 0) + 1
        badset = set()
        for case, idx in rej:
            badset.add(case[0])
            if classify(prop, case, idx):
                k = known(prop, case, idx)
                (kn if k else viol).append((case, idx, k))
            else:
                total["inconclusive"] += 1
                key = json.loads(case[idx])["op"]
                inconcl[key] = inconcl.get(key, 0) + 1
        if prop == "C14":  # a panic counts wherever the history stands
            for case in split_cases(lines):
                if case[0] not in badset or any(case is v[0] for v in viol):
                    continue
                i = next((i for i, ln in enumerate(case) if '"panic":' in ln), None)
                if i is not None and not any(case[0] == v[0][0] for v in viol):
                    viol.append((case, i, None))
        good = [c for c in split_cases(lines) if c[0] not in badset and 3 < len(c) < 40]
        if len(samples) < 2 and good:
            samples.append({"case": json.loads(good[0][0])["cid"], "cfg": json.loads(good[0][0])["cfg"],
                            "events": [describe(x.strip()) for x in good[0][1:9]]})

    # 1. behaviours generated from the specification, replayed on the real code
    for i, g in enumerate(t.get("spec", [])):
        f = os.path.join(work, f"spec{i}.ops")
        n, st, tr = spec_ops(prop, exe, g, f, work, f"gen{i}")
        total["states"] += st; total["trans"] += tr
        out = os.path.join(work, f"spec{i}.log")
        lines = replay_ops(exe, f, out, work, f"spec{i}")
        absorb(lines, f"specv{i}")
        total["spec_behaviours"] = total.get("spec_behaviours", 0) + n
        log(f"{n} behaviours generated from {g['module']} replayed, {len(viol)} violations")
        if viol:
            break

    # 2. random histories recorded on the real code
    rounds = t["rounds"] if not viol else []
    for i, r in enumerate(rounds):
        scouting = "scout" in r
        shards = CPUS if scouting else min(4, CPUS)
        per = -(-(r["scout"] if scouting else r["n"]) // shards)
        base = ["gen", "--prop", prop, "--seed", str(SEED + r.get("seed", 0)), "--scale", str(r.get("scale", 100)), "--hang", "30", *r.get("args", [])]
        if scouting:
            base += ["--keep", str(r.get("keep", 1)), "--secs", str(r.get("secs", 60))]
        with cf.ThreadPoolExecutor(shards) as ex:
            fs = [ex.submit(drive, exes["scout"] if scouting else exe, base, k * per, per, work, f"r{i}s{k}", 600) for k in range(shards)]
            lines = [x for f in fs for x in f.result()[0]]
        sus = 0
        for x in (x for f in fs for x in f.result()[1]):
            sus += x["own"] + x["other"]
            for k in ("cases", "events", "own", "other"):
                scouted[k] = scouted.get(k, 0) + x[k]
            for k in ("calls", "cfgs"):
                for n, c in x[k].items():
                    scouted.setdefault(k, {}).setdefault(n, 0)
                    scouted[k][n] += c
        before = total["cases"] - total["ok"]
        absorb(lines, f"round{i}")
        if scouting:
            log(f"scouted {scouted.get('cases', 0)} cases, {scouted.get('events', 0)} events: {sus} suspicious, TLC rejects {total['cases'] - total['ok'] - before}")
        log(f"round {i}: {total['cases']} cases, {total['events']} events, {len(viol)} violations, {total['inconclusive']} inconclusive")
        if viol or (TIER == "thorough" and time.time() - T0 > t.get("budget", 2400)):
            break
    models = mc.result()
    for m in models:
        log(f"model {m['module']} {m['config']}: {m['states']} states, {m['transitions']} transitions, as expected ({m['expected']})")
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking", "wall_s": round(time.time() - T0, 1),
        "coverage": {
            "states": total["states"] + sum(m["states"] for m in models),
            "transitions": total["trans"] + sum(m["transitions"] for m in models),
            "traces_validated_against_impl": total["ok"],
            "samples": samples or [{"models": models}],
            "design_models": models,
            "trace_cases": total["cases"], "trace_events": total["events"],
            "cases_rejected_for_reasons_other_than_this_property": total["inconclusive"],
            "inconclusive_by_call": inconcl,
            "behaviours_generated_from_the_specification": total.get("spec_behaviours", 0),
            "histories_read_by_the_scout_only": {k: scouted.get(k, 0) for k in ("cases", "events")},
            "histories_the_scout_handed_to_TLC_as_suspicious": scouted.get("own", 0) + scouted.get("other", 0),
            "calls_read_by_the_scout": scouted.get("calls", {}),
            "calls": ops, "element_types_and_parameters": cfgs,
        },
        "violations": len(viol),
        "known_findings": len(kn),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    for case, idx, k in kn:
        print(f"KNOWN-FINDING: property={prop} {k}")
    if viol:
        viol.sort(key=lambda v: v[1])
        for n, (case, idx, _) in enumerate(viol[:3]):
            p = save_replay(prop, case, idx, n)
            h = json.loads(case[0])
            print(f"  case {h['cid']} ({h['cfg']}), call {idx} is not allowed by the specification: {describe(case[idx].strip())}")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    if total["cases"] == 0 or (total["ok"] == 0 and total["inconclusive"] == 0):
        raise ToolError("nothing was explored")
    log(f"{prop} held: {total['ok']} of {total['cases']} recorded histories are behaviours of the specification")
    return 0


def spec_ops(prop, exe, g, out, work, tag):
    """Lets TLC write behaviours of the specification as lists of calls, for trees of several element types."""
    env = {"GENPROP": prop, "GENSEED": str(SEED)}
    rc, gen, dist, text = tlc(g["module"], g["cfg"], work, tag, env, extra=["-seed", str(SEED + g.get("seed", 0))], workers=1)
    if rc != 0:
        k = text.find("Error:")
        raise ToolError(f"generator {g['module']}: {text[k:k + 2000]}")
    cases = [json.loads(m.replace('\\"', '"')) for m in re.findall(r'^<<"OPS", "(.*)">>$', text, re.M)]
    if not cases:
        raise ToolError("the generator wrote nothing")
    if g["module"] == "Gen.tla":
        heads = headers(prop, exe)
        heads = heads[SEED % len(heads):] + heads[:SEED % len(heads)]
    else:
        heads = [{"cfg": "t2f", "dim": 2, "min": 3, "max": 6, "rei": 2, "sc": 1, "mul": "1", "off": "0", "objs": []}]
    with open(out, "w") as f:
        for i, ops in enumerate(cases):
            h = dict(heads[i % len(heads)], op="Case", cid=f"spec-{tag}-{i}", prop=prop)
            for o in [h] + ops:
                f.write(json.dumps(o) + "\n")
    return len(cases), gen, dist


def headers(prop, exe):
    """The elements of spec/Gen.tla as points, boxes, segments and point sets of the driver's two-dimensional types."""
    heads = []
    for ln in subprocess.run([exe, "configs"], capture_output=True, text=True, check=True).stdout.splitlines():
        c = dict(x.split("=", 1) for x in ln.split())
        yes = lambda k: c[k] == "true"
        if c["dim"] != "2" or c["alt"] != c["shape"] or int(c["lim"]) < 100:
            continue
        if not {"C19": yes("mutable"), "C21": yes("serde"), "C23": yes("wrap") and yes("tagged"), "C26": not yes("tagged") and not yes("wrap")}.get(prop, yes("tagged")):
            continue
        objs, seen = [], set()
        for k in range(1, 31):
            p = [3, 3] if k <= 3 else {4: [5, 3], 5: [3, 6], 6: [9, 9]}.get(k, [5 * k % 13, 3 * k % 11 + 1])
            if not yes("tagged"):
                while tuple(p) in seen:
                    p = [p[0] + 1, p[1]]
                seen.add(tuple(p))
            j = 1 if k == 2 and yes("tagged") else k
            s = c["shape"]
            g = ({"s": "p", "c": p} if s == "p" else {"s": "r", "c": p, "d": [p[0] + j % 3, p[1] + j % 2]} if s == "r" else
                 {"s": "l", "c": p, "d": [p[0] + (j % 3) * (1 - j % 2), p[1] + (j % 3) * (j % 2)]} if s == "l" else
                 {"s": "m", "c": [p] + ([[p[0] + 2, p[1] + j % 2]] if j % 3 else [])})
            objs.append({"g": g, "e": j})
        aff = [("1", "0"), ("1", "-7"), ("1", str(1 << (12 if "f32" in c["name"] else 29)))][0 if "i16" in c["name"] else len(heads) % 3]
        heads.append({"cfg": c["name"], "dim": 2, "min": int(c["min"]), "max": int(c["max"]), "rei": int(c["rei"]), "sc": 64 if c["shape"] == "l" else 1,
                      "mul": aff[0], "off": aff[1], "objs": objs})
    return heads


def replay_ops(exe, f, out, work, tag):
    rc = run_driver(exe, ["replay", "--in", f], out, work, tag, 600)
    got = whole_lines(out)
    if rc == 3:
        return got
    if rc != 0:
        sync = os.path.join(work, f"{tag}.pending")
        rc2 = run_driver(exe, ["replay", "--in", f, "--sync", sync], out, work, tag, 600)
        got = whole_lines(out)
        pend = open(sync).read() if os.path.exists(sync) else ""
        err = open(os.path.join(work, f"{tag}.err")).read()
        if rc2 == 0 or not pend or rc2 == 101:
            raise ToolError("driver failed on a replay: " + err[-2000:])
        e = json.loads(pend)
        e["panic"] = f"process died ({rc2})"
        got.append(json.dumps(e) + "\n")
    return got


def replay(path):
    """Executes a recorded history again on the current tree and lets TLC judge it."""
    exe = build()["debug"]
    work = os.path.join(HERE, "work", f"replay-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    try:
        out = os.path.join(work, "again.ndjson")
        lines = replay_ops(exe, path, out, work, "again")
        n, ok, rej, _, _ = judge(lines, work, "replay")
        for case, idx in rej:
            print(f"not allowed by the specification: call {idx}: {case[idx].strip()}")
        print("behaviour of the specification" if not rej else "REJECTED")
        return 1 if rej else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(replay(sys.argv[2]) if sys.argv[1] == "replay" else check(sys.argv[1]))
    except ToolError as e:
        print("CHECK-ERROR:", e, flush=True)
        sys.exit(2)
