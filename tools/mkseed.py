#!/usr/bin/env python3
"""Authoring aid for planted bugs (not read by any check).
mkseed.py FILE.py [ID...]: for each bug in FILE.py's BUGS, apply it to a scratch copy of /repo, confirm it
builds, passes the tests and is shown by its demonstration, run the property's quick check (a copy of the
harness pointed at that copy), undo it, and write seeded/<id>/. Prints one line per bug. SEED_JOBS bugs
are tried at once (2); SEED_COPY is where the copies live (/tmp/mkseed)."""
import sys, os, json, subprocess, runpy, shutil, fcntl
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "a74b1bf"
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cat > "$T/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
der-parser = { path = "$R", features = ["bigint", "serialize", "as_bitvec"%(extra)s] }%(deps)s
END
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true
%(cmd)s
'''
CMD = 'timeout 250 cargo run -q --offline --manifest-path "$T/Cargo.toml"'
ROOT = os.environ.get("SEED_COPY", "/tmp/mkseed")
JOBS = int(os.environ.get("SEED_JOBS", "2"))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def copies(k):
    base = f"{ROOT}/{k}"
    repo, ver = base + "/repo", base + "/verif"
    os.makedirs(ver, exist_ok=True)
    sh(f"rsync -a --delete /repo/ {repo}/ || (rm -rf {repo} && cp -a /repo {repo})")
    for x in ["run.sh", "KNOWN_FINDINGS.txt", "properties.jsonl", "MANIFEST.json"]:
        shutil.copy(f"{HERE}/{x}", ver)
    for x in ["harness", "probes"]:
        for d, ds, fs in os.walk(f"{HERE}/{x}"):
            ds[:] = [y for y in ds if y != "target"]
            o = ver + d[len(HERE):]
            os.makedirs(o, exist_ok=True)
            for f in fs:
                s = open(f"{d}/{f}", "rb").read()
                if f == "Cargo.toml": s = s.replace(b'"/repo', f'"{repo}'.encode())
                if not os.path.exists(f"{o}/{f}") or open(f"{o}/{f}", "rb").read() != s: open(f"{o}/{f}", "wb").write(s)
    return repo, ver
def one(b, repo, ver):
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick", CARGO_NET_OFFLINE="true")
    d = f"{HERE}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/main.rs", "w").write(b["demo"].strip() + "\n")
    open(f"{d}/demo.sh", "w").write(DEMO % dict(extra="", deps=b.get("deps", ""), cmd=b.get("cmd", CMD)))
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    r0 = sh(f"bash {d}/demo.sh", cwd=repo)
    if r0.returncode != 0:
        return f"{b['id']} DEMO FAILS ON CLEAN {(r0.stdout + r0.stderr)[-900:]}"
    for f, old, new in b["edits"]:
        p = f"{repo}/{f}"
        s = open(p).read()
        if s.count(old) < 1 or (s.count(old) > 1 and not b.get("multi")):
            return f"{b['id']} EDIT COUNT {s.count(old)} {old[:60]!r}"
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {repo} diff").stdout
    open(f"{d}/patch.diff", "w").write(diff)
    orig = 0
    cur = None
    for l in diff.splitlines():
        if l.startswith("--- a/"): cur = sh(f"git -C {repo} show {BASE}:{l[6:]}").stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---") and l[1:] in cur: orig += 1
    bld = sh("cargo test --workspace --all-features --no-run --offline && cargo check --workspace --offline && cargo check --workspace --no-default-features --offline && cargo build --manifest-path der-oid-macro/Cargo.toml --offline", cwd=repo, env=env)
    if bld.returncode:
        return f"{b['id']} BUILD FAILS {bld.stderr[-1500:]}"
    tst = sh("timeout 300 cargo test --workspace --all-features --no-fail-fast --offline", cwd=repo, env=env)
    failed = tst.returncode
    r1 = sh(f"bash {d}/demo.sh", cwd=repo)
    res = []
    for p in b.get("checks", [b["prop"]]):
        c = sh(f"bash {ver}/run.sh {p} quick", env=env)
        v = f"VIOLATION property={p}" in c.stdout
        res.append(f"{p}:rc={c.returncode}{' caught' if v and c.returncode == 1 else ' MISSED'}")
        last = [x for x in c.stdout.splitlines() if x.strip()]
        res.append((last[-2] if len(last) > 1 else (last or [c.stderr[-300:]])[-1])[:160])
    good = orig and not failed and r1.returncode
    if good:
        rp = f"{HERE}/tools/seed_results.json"
        with open(f"{ROOT}/lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            allr = json.load(open(rp)) if os.path.exists(rp) else {}
            allr[b["id"]] = ", ".join(x.split(":")[0] for x in res if x.endswith(" caught")) or "MISSED"
            json.dump(allr, open(rp, "w"), indent=0, sort_keys=True)
    out = " ".join([b["id"], f"tests_failed={failed} demo_rc={r1.returncode} orig_lines={orig}", *res, "" if good else " <<<<< BAD"])
    if failed: out += "\n" + str([l for l in tst.stdout.splitlines() if "FAILED" in l or "panicked" in l][:6])
    return out
def main():
    from concurrent.futures import ThreadPoolExecutor
    import queue
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    assert sh("git -C /repo status --short").stdout == "", "repo not clean"
    q = queue.Queue()
    for k in range(JOBS): q.put(copies(k))
    def go(b):
        repo, ver = q.get()
        try: print(one(b, repo, ver), flush=True)
        except Exception as e: print(b["id"], "ERROR", e, flush=True)
        finally:
            sh(f"git -C {repo} checkout -- .")
            q.put((repo, ver))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(go, [b for b in bugs if not only or b["id"] in only]))
main()
