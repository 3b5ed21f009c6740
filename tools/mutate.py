#!/usr/bin/env python3
"""Development aid: makes small changes to rstar in scratch copies, keeps those that compile and pass
the existing tests, and asks the driver's scout (and TLC for the calls without trees) about them.
usage: mutate.py OUT.jsonl [workers] [file-substring]"""
import concurrent.futures as cf, json, os, queue, random, re, subprocess, sys
OUT, W = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 6
ONLY = sys.argv[3] if len(sys.argv) > 3 else ""
TOP = "/tmp/mut"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
SRC = "/repo/rstar/src"
SWAPS = [(r"(?<![<=>-])<(?![<=A-Za-z'&(\[>])", "<="), (r"<=", "<"), (r"(?<![-=<>])>(?![>=(:;,{&\s]*[>({;,:&])(?= )", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|(?= )", "&&"),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"\bmin_inline\b", "max_inline"), (r"\bmax_inline\b", "min_inline"), (r"\bmin_point\b", "max_point"), (r"\bmax_point\b", "min_point"),
         (r"\blower\b", "upper"), (r"\bupper\b", "lower"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\bis_some\b", "is_none"), (r"\bis_none\b", "is_some"),
         (r"!(?=self|[a-z_.]+\()", ""), (r"\b(\d+)\b", "INC"), (r"\b(\d+)\b", "DEC"), (r"\bOrdering::Less\b", "Ordering::Greater"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
         (r"\bmax_value\b", "min_value"), (r"\bmin_value\b", "max_value"), (r"MAX_SIZE", "MIN_SIZE"), (r"MIN_SIZE", "MAX_SIZE"), (r"\bcontinue\b", "break"), (r"\bSome\((\w+)\)(?= =>)", "None => {} Some(\\1)"),
         (r"contains_envelope", "intersects"), (r"intersects", "contains_envelope"), (r"should_unpack_parent", "should_unpack_leaf"), (r"\bfrom\b", "to"), (r"\bto\b", "from"), (r"\.rev\(\)", ""), (r"\bpop\(\)", "first().cloned()")]

def mutants():
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), SRC)
            if "test" in rel or ONLY not in rel: continue
            lines = open(os.path.join(d, f)).read().split("\n")
            for i, ln in enumerate(lines):
                t = ln.strip()
                if t.startswith("#[cfg(test)]") or t.startswith("mod test"): break
                if t.startswith(("//", "#", "use ", "pub use", "pub mod", "mod ", "type ", "where", "impl", "pub struct", "T:", "U:", "P:", "F:", "R:")): continue
                code = ln.split("//")[0]
                for pat, new in SWAPS:
                    for m in re.finditer(pat, code):
                        if new == "INC": x = str(int(m[1]) + 1)
                        elif new == "DEC":
                            if m[1] == "0": continue
                            x = str(int(m[1]) - 1)
                        else: x = m.expand(new)
                        yield rel, i, ln[:m.start()] + x + ln[m.end():]
                if re.match(r"^[a-z_.]+.*;$", t) and not re.match(r"(let|return|type|use|const|fn|pub|assert|debug)", t):
                    yield rel, i, re.match(r"^\s*", ln)[0] + ";"
                if t.startswith("return") : yield rel, i, re.match(r"^\s*", ln)[0] + "{}"
                m = re.match(r"^(\s*)(\}? ?(?:else )?if )([^{]*[^{ ])( \{)$", ln)
                if m and "let" not in m[3]:
                    yield rel, i, f"{m[1]}{m[2]}true || ({m[3]}){m[4]}"
                    yield rel, i, f"{m[1]}{m[2]}false && ({m[3]}){m[4]}"

def sh(cmd, cwd, timeout=600, env=ENV):
    try: return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        subprocess.run(f"pkill -f {cwd}", shell=True)
        return subprocess.CompletedProcess(cmd, 99, "", "timeout")

PROPS = ["C%02d" % i for i in range(1, 24) if i != 20] + ["C26"]
def setup(k):
    w, h = f"{TOP}/w{k}", f"{TOP}/h{k}"
    if not os.path.exists(w):
        sh(f"cp -a /repo {w}; mkdir -p {h}; cp -r /verif/harness/src /verif/harness/Cargo.* {h}/", "/tmp")
    sh(f"rm -rf {h}/src; cp -r /verif/harness/src /verif/harness/Cargo.* {h}/; sed -i 's#/repo/rstar#{w}/rstar#' {h}/Cargo.toml; mkdir -p {h}/md", "/tmp")
    sh("git checkout -q -- .", w)

def work(k, mut):
    w, h = f"{TOP}/w{k}", f"{TOP}/h{k}"
    rel, i, new = mut
    p = f"{w}/rstar/src/{rel}"
    orig = open(f"{SRC}/{rel}").read()
    lines = orig.split("\n")
    old = lines[i]; lines[i] = new
    open(p, "w").write("\n".join(lines))
    res = dict(file=rel, line=i + 1, old=old.strip(), new=new.strip())
    try:
        env = dict(ENV, CARGO_TARGET_DIR=f"{w}/target", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
        t = sh("timeout 60 cargo test -p rstar --all-features --offline --lib -- --test-threads 4", w, 90, env)
        if "could not compile" in t.stderr or "error" in t.stderr[:300]: return dict(res, st="nocompile")
        if t.returncode: return dict(res, st="tests")
        t = sh("timeout 200 cargo test -p rstar --all-features --offline -- --test-threads 4", w, 260, env)
        if t.returncode: return dict(res, st="tests")
        env = dict(ENV, CARGO_TARGET_DIR=f"{h}/target")
        t = sh("cargo build --offline --quiet", h, 300, env)
        if t.returncode: return dict(res, st="nodriver", err=t.stderr[-300:])
        exe = f"{h}/target/debug/rstar-conform"
        hit = {}
        for pr in PROPS:
            t = sh(f"timeout 120 {exe} gen --prop {pr} --seed 5 --n 900 --secs 6 --scale 300 --keep 0 --hang 8 --stats {h}/st.json --out {h}/o.log", h, 130)
            if t.returncode: hit[pr] = f"rc{t.returncode}"; continue
            s = json.load(open(f"{h}/st.json"))
            if s["own"] or s["other"]: hit[pr] = [s["own"], s["other"]]
            if any(x == "rc" or (isinstance(x, list) and x[0]) for x in hit.values()) and len(hit) > 3: break
        if hit: return dict(res, st="caught", by=hit)
        # calls without trees: TLC
        logs = ""
        for pr, n in (("C20", 8), ("C24", 90), ("C25", 150)):
            t = sh(f"timeout 100 {exe} gen --prop {pr} --seed 5 --n {n} --out {h}/p-{pr}.log", h, 130)
            if t.returncode: return dict(res, st="caught", by={pr: f"rc{t.returncode}"})
            logs += open(f"{h}/p-{pr}.log").read()
        open(f"{h}/p.log", "w").write(logs)
        cases = logs.count('"op":"Case"')
        t = sh(f"java -Xss64m -Xmx2g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -workers 2 -metadir {h}/md -config Trace.cfg Trace.tla",
               "/verif/spec", 200, dict(ENV, LOG=f"{h}/p.log", VERBOSE="0"))
        sh(f"rm -rf {h}/md", h)
        if t.stdout.count('"DONE"') != cases: return dict(res, st="caught", by={"pure": cases - t.stdout.count('"DONE"')}, out=t.stdout[-200:] if t.returncode else "")
        return dict(res, st="SURVIVED")
    finally:
        open(p, "w").write(orig)

if __name__ == "__main__":
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT): r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
    ms = [m for m in mutants() if (m[0], m[1] + 1, m[2].strip()) not in done]
    random.Random(3).shuffle(ms)
    print(len(ms), "changes", flush=True)
    slots = queue.Queue()
    for k in range(W): setup(k); slots.put(k)
    out = open(OUT, "a")
    def job(m):
        k = slots.get()
        try: r = work(k, m)
        finally: slots.put(k)
        out.write(json.dumps(r) + "\n"); out.flush()
    with cf.ThreadPoolExecutor(W) as ex: list(ex.map(job, ms))
